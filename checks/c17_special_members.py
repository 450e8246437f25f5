"""C17: rule-of-three, copyable-polymorphic and rule-of-two-soft. Every combination of forms of the special members, with every kind of
member, base and context, against a model of the language's rules for implicit members. The model itself is validated against the compiler
with static assertions over every class."""
import itertools, os, re, subprocess
import vbuild, batch
from drv import Pool
from report import Check

PRO = '''
#pragma once
template<class T> class QSharedDataPointer { T *d; public: QSharedDataPointer(); QSharedDataPointer(const QSharedDataPointer &); QSharedDataPointer &operator=(const QSharedDataPointer &); ~QSharedDataPointer(); };
class QSharedData { public: int ref; QSharedData(); QSharedData(const QSharedData &); QSharedData &operator=(const QSharedData &) = delete; };
struct Priv; void g(); 
struct PlainM { int i; };
struct UserM { UserM(); UserM(const UserM &); UserM &operator=(const UserM &); ~UserM(); };
struct MoveM { MoveM(); MoveM(MoveM &&); };
struct NoCopyM { NoCopyM(); NoCopyM(const NoCopyM &) = delete; NoCopyM &operator=(const NoCopyM &) = delete; };
struct NoAssignM { NoAssignM(); NoAssignM &operator=(const NoAssignM &) = delete; };
struct CtorM { CtorM(); CtorM(const CtorM &); CtorM &operator=(const CtorM &) = default; };
struct AssignM { AssignM(); AssignM(const AssignM &) = default; AssignM &operator=(const AssignM &); };
struct PrivB { protected: PrivB(); PrivB(const PrivB &); PrivB &operator=(const PrivB &); };
struct SharedB : QSharedData { };
struct VirtB { virtual void v(); };
struct VirtPubB { virtual void v(); VirtPubB(); VirtPubB(const VirtPubB &); VirtPubB &operator=(const VirtPubB &); };
struct VirtProtB { virtual void v(); protected: VirtProtB(); VirtProtB(const VirtProtB &); VirtProtB &operator=(const VirtProtB &); };
struct VirtProt2B : VirtProtB { protected: VirtProt2B(); VirtProt2B(const VirtProt2B &); VirtProt2B &operator=(const VirtProt2B &); };
struct VirtNoB { virtual void v(); VirtNoB(); VirtNoB(const VirtNoB &) = delete; VirtNoB &operator=(const VirtNoB &) = delete; };
struct VirtMidB : VirtPubB { protected: VirtMidB(); VirtMidB(const VirtMidB &); VirtMidB &operator=(const VirtMidB &); };
'''
# special member forms: key -> (declaration, out of line definition, user provided, deleted, access, explicitly defaulted)
DTOR = {"-": None, "user": ("~C() { g(); }", "", 1, 0, 0, 0), "empty": ("~C() { }", "", 1, 0, 0, 0), "decl": ("~C();", "", 1, 0, 0, 0), "outuser": ("~C();", "C::~C() { g(); }", 1, 0, 0, 0), "outempty": ("~C();", "C::~C() { }", 1, 0, 0, 0),
        "default": ("~C() = default;", "", 0, 0, 0, 1), "outdefault": ("~C();", "C::~C() = default;", 1, 0, 0, 0), "delete": ("~C() = delete;", "", 0, 1, 0, 0), "protuser": ("protected: ~C() { g(); } public:", "", 1, 0, 1, 0),
        "protempty": ("protected: ~C() { } public:", "", 1, 0, 1, 0), "privuser": ("private: ~C() { g(); } public:", "", 1, 0, 2, 0), "nested": ("~C() { { } }", "", 1, 0, 0, 0), "semi": ("~C() { ; }", "", 1, 0, 0, 0)}
NONEMPTY = {"user", "outuser", "protuser", "privuser", "nested", "semi"}
CC = {"-": None, "user": ("C(const C &) : C(0) { }", "", 1, 0, 0, 0), "decl": ("C(const C &);", "", 1, 0, 0, 0), "default": ("C(const C &) = default;", "", 0, 0, 0, 1), "delete": ("C(const C &) = delete;", "", 0, 1, 0, 0),
      "outdefault": ("C(const C &);", "C::C(const C &) = default;", 1, 0, 0, 0), "privdecl": ("private: C(const C &); public:", "", 1, 0, 2, 0), "prot": ("protected: C(const C &) : C(0) { } public:", "", 1, 0, 1, 0), "privdel": ("private: C(const C &) = delete; public:", "", 0, 1, 2, 0),
      "nonconst": ("C(C &);", "", 1, 0, 0, 0), "defarg": ("C(const C &, int = 0);", "", 1, 0, 0, 0), "privdefault": ("private: C(const C &) = default; public:", "", 0, 0, 2, 1), "notcopy": ("C(const C &, int); C(const C *);", None, 0, 0, 0, 0)}
CA = {"-": None, "user": ("C &operator=(const C &) { return *this; }", "", 1, 0, 0, 0), "decl": ("C &operator=(const C &);", "", 1, 0, 0, 0), "default": ("C &operator=(const C &) = default;", "", 0, 0, 0, 1), "delete": ("C &operator=(const C &) = delete;", "", 0, 1, 0, 0),
      "privdecl": ("private: C &operator=(const C &); public:", "", 1, 0, 2, 0), "prot": ("protected: C &operator=(const C &) { return *this; } public:", "", 1, 0, 1, 0), "byvalue": ("C &operator=(C);", "", 1, 0, 0, 0), "void": ("void operator=(const C &);", "", 1, 0, 0, 0),
      "outdefault": ("C &operator=(const C &);", "C &C::operator=(const C &) = default;", 1, 0, 0, 0), "notcopy": ("C &operator=(int); C &operator+=(const C &);", None, 0, 0, 0, 0)}
MOVE = {"-": ("", 0, 0), "mctor": ("C(C &&);", 1, 0), "massign": ("C &operator=(C &&);", 0, 1), "both": ("C(C &&); C &operator=(C &&);", 1, 1), "default": ("C(C &&) = default; C &operator=(C &&) = default;", 1, 1)}
# member kinds: declaration, (copy constructible, copy assignable, trivial cctor, trivial cassign)
FIELD = {"-": ("", 1, 1, 1, 1), "int": ("int i;", 1, 1, 1, 1), "ptr": ("const int *p;", 1, 1, 1, 1), "constptr": ("int *const p;", 1, 0, 1, 1), "const": ("int a; const int i = 1;", 1, 0, 1, 1), "ref": ("int &r;", 1, 0, 1, 1), "rref": ("int &&r;", 0, 0, 1, 1), "user": ("UserM m;", 1, 1, 0, 0),
         "plain": ("PlainM m;", 1, 1, 1, 1), "moveonly": ("MoveM m;", 0, 0, 0, 0), "nocopy": ("NoCopyM m;", 0, 0, 0, 0), "noassign": ("NoAssignM m;", 1, 0, 1, 0), "ctor": ("CtorM m;", 1, 1, 0, 1), "assign": ("AssignM m;", 1, 1, 1, 0),
         "shared": ("QSharedDataPointer<Priv> d;", 1, 1, 0, 0), "sharedlast": ("int i; UserM u; QSharedDataPointer<Priv> d;", 1, 1, 0, 0), "sharedptr": ("QSharedDataPointer<Priv> *d;", 1, 1, 1, 1), "static": ("static const int s = 1; static int &r; static QSharedDataPointer<Priv> d;", 1, 1, 1, 1), "array": ("UserM m[2];", 1, 1, 0, 0)}
# bases: text, cc ok, ca ok, trivial cc, ca, shared data, polymorphic, public copy in ancestors
BASE = {"-": ("", 1, 1, 1, 1, 0, 0, 0), "plain": (" : PlainM", 1, 1, 1, 1, 0, 0, 1), "user": (" : UserM", 1, 1, 0, 0, 0, 0, 1), "nocopy": (" : NoCopyM", 0, 0, 0, 0, 0, 0, 0), "qshared": (" : public QSharedData", 1, 0, 0, 0, 1, 0, 1),
        "qshared2": (" : SharedB", 1, 0, 0, 0, 1, 0, 1), "prot": (" : PrivB", 1, 1, 0, 0, 0, 0, 0), "privinh": (" : private UserM", 1, 1, 0, 0, 0, 0, 1), "ctor": (" : CtorM", 1, 1, 0, 1, 0, 0, 1), "assign": (" : PlainM, AssignM", 1, 1, 1, 0, 0, 0, 1),
        "virt": (" : VirtB", 1, 1, 0, 0, 0, 1, 1), "virtpub": (" : VirtPubB", 1, 1, 0, 0, 0, 1, 1), "virtprot": (" : VirtProtB", 1, 1, 0, 0, 0, 1, 0), "virtprot2": (" : VirtProt2B", 1, 1, 0, 0, 0, 1, 0), "virtno": (" : VirtNoB", 0, 0, 0, 0, 0, 1, 0),
        "virtmid": (" : protected VirtMidB", 1, 1, 0, 0, 0, 1, 1), "vbase": (" : virtual PlainM", 1, 1, 0, 0, 0, 0, 1)}


class Cls:
    def __init__(self, dt="-", cc="-", ca="-", mv="-", fd="-", bs="-", virt="", final=0, order=0):
        self.k = (dt, cc, ca, mv, fd, bs, virt, final, order)
        d, c, a, m, f, b = DTOR[dt], CC[cc], CA[ca], MOVE[mv], FIELD[fd], BASE[bs]
        self.dt, self.d, self.c, self.a, self.m, self.f, self.b = dt, d, c, a, m, f, b
        self.virt, self.final, self.order = virt, final, order
        if c and c[1] is None:
            c = None
        if a and a[1] is None:
            a = None
        self.poly = bool(b[6] or virt and (virt != "dtor" or d))
        # copy constructor
        dtor_ok_bases = True
        self.cc_del = self.cc_acc = self.ca_del = self.ca_acc = 0
        self.cc_user = bool(c and c[2])
        self.ca_user = bool(a and a[2])
        self.d_user = bool(d and d[2])
        impl_cc_ok = f[1] and b[1]
        impl_ca_ok = f[2] and b[2]
        if c:
            self.cc_del, self.cc_acc = bool(c[3]) or (bool(c[5]) and not impl_cc_ok), c[4]
        else:
            self.cc_del = bool(m[1] or m[2]) or not impl_cc_ok
        if a:
            self.ca_del, self.ca_acc = bool(a[3]) or (bool(a[5]) and not impl_ca_ok), a[4]
        else:
            self.ca_del = bool(m[1] or m[2]) or not impl_ca_ok
        dyn = self.poly or bs == "vbase"
        self.cc_nontriv = self.cc_user or (not self.cc_del and (not f[3] or not b[3] or dyn))
        self.ca_nontriv = self.ca_user or (not self.ca_del and (not f[4] or not b[4] or dyn))
        self.valid = not (dt == "delete" and (cc in ("user", "prot") or b[6])) and not (cc == "outdefault" and not impl_cc_ok) and not (ca == "outdefault" and not impl_ca_ok)
        self.cc_default, self.ca_default = bool(c and c[5]), bool(a and a[5])

    def text(self, name):
        parts = [x[0] for x in (self.d, self.c, self.a) if x]
        p = [[0, 1, 2], [2, 1, 0], [1, 2, 0]][self.order]
        parts = [parts[i] for i in p if i < len(parts)]
        if self.virt:
            parts = [x.replace("~C", "virtual ~C") for x in parts] if self.virt == "dtor" else parts + [self.virt]
        s = "struct C%s%s { C(int); %s %s %s };" % (" final" if self.final else "", self.b[0], " ".join(parts), self.m[0], self.f[0])
        for x in (self.d, self.c, self.a):
            if x and x[1]:
                s += " " + x[1]
        return re.sub(r"\bC\b", name, s)

    def rule3(self, name):
        if self.poly or self.k[0] == "-" and 0:
            return None
        has = [n for n, v in (("dtor", self.d_user), ("copy-ctor", self.cc_user), ("copy-assignment", self.ca_user)) if v]
        mis = [n for n, v in (("dtor", self.d_user), ("copy-ctor", self.cc_user), ("copy-assignment", self.ca_user)) if not v]
        if not has or not mis:
            return None
        if self.d_user and (self.cc_del or self.ca_del):
            return None
        if has == ["dtor"] and (self.d[4] == 1 or self.dt not in NONEMPTY):
            return None
        if not self.d_user and (self.b[5] or self.dt == "default"):
            return None
        if self.k[4] in ("shared", "sharedlast"):
            return None
        return "%s has %s but not %s" % (name, ", ".join(has), ", ".join(mis))

    def polycopy(self, name):
        if not self.poly:
            return None
        if not ((not self.cc_del and self.cc_acc == 0) or (not self.ca_del and self.ca_acc == 0)):
            return None
        if self.final and not self.b[7]:
            return None
        return "Polymorphic class %s is copyable. Potential slicing." % name

    def rule2(self, name, use):
        """use: 'a' copy assignment, 'c' copy construction"""
        out = []
        if use == "a" and self.cc_nontriv and not self.ca_nontriv and not self.ca_default:
            out.append("Using assign operator but class %s has copy-ctor but no assign operator" % name)
        if (use == "c" or use == "a" and self.k[2] == "byvalue") and not self.cc_nontriv and not self.cc_default and self.ca_nontriv:
            out.append("Using copy-ctor but class %s has a trivial copy-ctor but non trivial assign operator" % name)
        return out


CONCEPTS = '''template<class T> concept CC = requires(T &b) { new T(b); }; template<class T> concept CC1 = requires(const T &b) { new T(b); };
template<class T> concept CA = requires(T &a, const T &b) { a = b; };
'''
# contexts: (text with @ for the class text, prefix of the qualified name, relative line)
CONTEXT = [("namespace N% { @ }", "N%::"), ("namespace N% { namespace { @ } }", "N%::(anonymous namespace)::"), ("struct Out% { @ };", "Out%::"), ("void fn%() { @ }", ""), ("inline namespace IN% { namespace M { @ } }", "IN%::M::"), ("struct K%; @", ""), ("@ struct K%;", ""), ("extern \"C++\" { @ }", "")]


def main():
    ck = Check("C17", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    P = itertools.product
    F = {"/v/pro.h": PRO}
    ARGS = ["-std=c++20", "-w", "-ferror-limit=0"]
    total, warned = 0, 0

    def run(check, items, main="/v/x.cpp"):
        """items: (key, source, expected messages)"""
        nonlocal total, warned
        got = batch.run(pool, ARGS, '#include "pro.h"\n', [s for _, s, _ in items], check, per=600, files=F, main=main)
        for (k, s, w), g in zip(items, got):
            total += 1
            if isinstance(g, dict):
                ck.violate("%s %s" % (check, k), {"source": s, "result": g})
                continue
            o = sorted(x[2] for x in g)
            warned += bool(o)
            if o != sorted(w):
                ck.violate("%s %s" % (check, k), {"source": s, "want": w, "got": o})
    one = lambda m: [m] if m else []

    def classes(it):
        out, seen = [], set()
        for a in it:
            c = Cls(*a)
            if c.valid and c.k not in seen:
                seen.add(c.k)
                out.append(c)
        return out
    D, C, A, M, FI, B = DTOR, CC, CA, MOVE, FIELD, BASE
    # rule-of-three: all special member forms; the main forms with every member and base; orders of declaration
    r3 = classes(itertools.chain(P(D, C, A, M), ((d, c, a, "-", f, s) for d, c, a, f, s in P(D if T else ["-", "user", "empty", "default"], list(C)[:5] if T else ["-", "user", "default", "delete"], list(A)[:5] if T else ["-", "user", "delete"], FI, B)),
                                 ((d, c, a, "-", f, "-", v, fi, o) for d, c, a, f, v, fi, o in P(["user", "empty", "outuser"], ["-", "user", "privdecl"], ["-", "user", "delete"], ["-", "shared", "const"], ["", "virtual void f();", "dtor"], [0, 1], [0, 1, 2]))))
    ck.cov["rule_of_three_classes"] = len(r3)
    run("rule-of-three", [("class %s" % (c.k,), c.text("K%d" % i) + "\n", one(c.rule3("K%d" % i))) for i, c in enumerate(r3)])
    # the model is validated against the compiler: which copies are possible
    chk = [c for c in r3 if c.k[2] != "byvalue"][::1 if T else 7]
    src = []
    for i, c in enumerate(chk):
        n = "V%d" % i
        cc, ca = not c.cc_del and c.cc_acc == 0, not c.ca_del and c.ca_acc == 0
        src.append(c.text(n) + " static_assert(%s<%s> == %d); static_assert(CA<%s> == %d);\n" % ("CC" if c.k[1] == "nonconst" else "CC1", n, cc, n, ca))
    val = batch.run(pool, ARGS, '#include "pro.h"\n' + CONCEPTS, src, "rule-of-three", per=400, files=F)
    bad = [(s, v) for s, v in zip(src, val) if isinstance(v, dict)]
    ck.cov["classes_validated_against_compiler"] = len(src)
    if bad:
        raise SystemExit("the model of implicit members disagrees with the compiler: %s" % (bad[0],))
    # contexts and names
    some = [c for c in classes(P(["-", "user", "protuser", "default"], ["-", "user", "delete"], ["-", "user"], ["-"], ["-", "shared", "user"], ["-", "qshared"]))]
    items = []
    for j, (ctx, pre) in enumerate(CONTEXT):
        for i, c in enumerate(some):
            n = "%d_%d" % (j, i)
            if "fn%" in ctx and ("static" in c.text("K")):
                continue
            w = c.rule3(pre.replace("%", n) + "K" + n)
            items.append(("context %s %s" % (ctx, c.k), ctx.replace("@", c.text("K" + n)).replace("%", n) + "\n", one(w)))
    for i, c in enumerate(some):
        items.append(("class keyword %s" % (c.k,), c.text("KW%d" % i).replace("struct KW", "class KW", 1).replace("{", "{ public:", 1) + "\n", one(c.rule3("KW%d" % i))))
    run("rule-of-three", items)
    for mainf, quiet in (("/v/x.cpp", 1), ("/v/x.cxx", 1), ("/v/x_p.h", 1), ("/v/x.cc", 0), ("/v/xp.h", 0), ("/v/x.cpp.inc", 0), ("/v/qrc_x.cpp", 2), ("/v/aqrc_/x.cc", None)):
        if quiet is None:
            continue
        items = []
        for suf in ("Private", "PrivateX", "private", "X"):
            for i, c in enumerate(some):
                n = "P%d%s" % (i, suf)
                w = c.rule3(n)
                if quiet == 2 or quiet and suf == "Private":
                    w = None
                items.append(("%s %s %s" % (mainf, suf, c.k), c.text(n) + "\n", one(w)))
        run("rule-of-three", items, mainf)
    # copyable-polymorphic
    cc_ = C if T else ["-", "user", "default", "delete", "privdecl", "prot", "notcopy", "nonconst"]
    ca_ = A if T else ["-", "user", "default", "delete", "privdecl", "prot", "notcopy", "byvalue"]
    pc = classes(itertools.chain((("-", c, a, m, f, s, v, fi) for c, a, m, f, s, v, fi in P(cc_, ca_, M if T else ["-", "mctor"], ["-", "const", "rref", "noassign", "nocopy", "user"], ["-", "plain", "prot", "nocopy"], ["virtual void f() = 0;"], [0, 1] if T else [0])),
                                 ((d, c, a, "-", f, s, v, fi) for d, c, a, f, s, v, fi in P(D, list(cc_)[:5], list(ca_)[:5], ["-"], B, ["", "dtor"], [0, 1])),
                                 (("user", c, a, m, f, s, "dtor", fi) for c, a, m, f, s, fi in P(list(C)[:4], list(A)[:4], M, FI, ["-", "user"], [0, 1]))))
    ck.cov["copyable_polymorphic_classes"] = len(pc)
    run("copyable-polymorphic", [("class %s" % (c.k,), c.text("K%d" % i) + "\n", one(c.polycopy("K%d" % i))) for i, c in enumerate(pc)])
    few = classes((d, c, a, "-", "-", s, v, fi) for d, c, a, s, v, fi in P(["-", "user"], ["-", "user", "delete"], ["-", "user", "delete"], ["-", "virtpub", "virtprot"], ["", "virtual void f();"], [0, 1]))
    items = []
    for j, (ctx, pre) in enumerate(CONTEXT):
        for i, c in enumerate(few):
            n = "%d_%d" % (j, i)
            items.append(("context %s %s" % (ctx, c.k), ctx.replace("@", c.text("K" + n)).replace("%", n) + "\n", one(c.polycopy(pre.replace("%", n) + "K" + n))))
    run("copyable-polymorphic", items)
    # rule-of-two-soft: every use of the copy operations
    r2 = classes(itertools.chain(P(D, C, A, ["-", "mctor"]), (("-", c, a, m, f, s) for c, a, m, f, s in (P(C, A, M, FI, B) if T else itertools.chain(P(list(C)[:5], list(A)[:5], ["-"], FI, B), P(["-", "user", "default", "notcopy"], ["-", "user", "default", "notcopy"], M, ["-", "ctor", "assign", "user"], ["-", "ctor", "assign", "virt"]))))))
    items, nuse = [], 0
    USE_A = ["a = b;", "(a = b);", "if (true) a = b; else g();", "for (;;) { a = b; break; }", "[&] { a = b; };", "(a) = (b);", "(void)(a = b);", "static_cast<void>(a = b);", "switch (0) default: a = b;"]
    USE_C = ["new K(b);", "(void)new K{b};", "if (true) { new K(b); }", "[&] { return new K(b); };", "struct W { K k; W(const K &o) : k(o) { } };", "try { new K(b); } catch (...) { }"]
    for i, c in enumerate(r2):
        for u in "ac":
            dt = c.k[0]
            if u == "a" and (c.ca_del or c.ca_acc or (c.k[2] == "byvalue" and (c.cc_del or c.cc_acc or c.k[1] == "nonconst" or dt in ("delete", "privuser", "protuser", "protempty") or c.k[3] != "-"))):
                continue
            if u == "c" and (c.cc_del or c.cc_acc or c.k[1] == "nonconst"):
                continue
            if (u == "a" and c.cc_del or u == "c" and c.ca_del) and not all((c.f[3], c.f[4], c.b[3], c.b[4])):
                continue    # the property leaves open what a deleted sibling with non-trivial members counts as
            n = "K%d_%s" % (i, u)
            w = c.rule2(n, u)
            simple = c.k[3:6] == ("-", "-", "-") and c.k[0] == "-"
            for j, use in enumerate(USE_A if u == "a" else USE_C):
                if j and not simple:
                    break
                nj = n + "_%d" % j
                items.append(("use %s %s" % (use, c.k), c.text(nj) + " void f%s(%s &a, const %s &b) { %s }\n" % (nj, nj, nj, re.sub(r"\bK\b", nj, use)), [m.replace(n, nj) for m in w]))
    ck.cov["rule_of_two_uses"] = len(items)
    # declarations of variables, parameters and results (classes with a public destructor)
    for i, c in enumerate(classes(P(["-", "user"], ["-", "decl", "default"], ["-", "decl", "default"]))):
        for j, (use, k) in enumerate((("K x = b;", "c"), ("K x(b);", "c"), ("K x{b};", "c"), ("auto x = b;", "c"), ("K *x[] = { new K(b) };", "c"), ("void by(K); by(b);", "c"), ("[](const K &q) -> K { return q; };", "c"), ("[b] { (void)&b; };", "c"), ("try { throw b; } catch (const K &) { }", "c"), ("const K &x = b; K *p = &a; K &r = a;", ""),
                                      ("K x(1); x = b;", "a"), ("K x(b); x = b;", "ca"), ("a = K(1);", "a"), ("K x = K(1); K y(2);", ""), ("K x(1), y(1); x = y = b;", "aa"), ("a = a;", "a"), ("K x[2] = { K(1), K(2) }; x[0] = x[1];", "a"), ("sizeof(K); K *p = nullptr; p = &a;", ""))):
            n = "U%d_%d" % (i, j)
            w = sum((c.rule2(n, u) for u in k), [])
            items.append(("decl %s %s" % (use, c.k), c.text(n) + " void f%s(%s &a, const %s &b) { %s }\n" % (n, n, n, re.sub(r"\bK\b", n, use)), w))
    run("rule-of-two-soft", items)
    ck.cov.update({"states": total, "transitions": total, "traces_validated_against_impl": total, "warned": warned, "exhaustive": True})
    ck.sample(items[100])
    ck.sample(r3[5000].text("K"))
    ck.finish()
