"""C16: function-args-by-ref, function-args-by-value and range-loop-reference on every combination of a type, a kind of function, a position
and a use up to a bound. The compiler itself says the size of each type and whether it can be copied trivially."""
import itertools, re, subprocess, tempfile
import vbuild, batch
from drv import Pool
from report import Check

STD = '''namespace std { template<class T> struct remove_reference { typedef T type; }; template<class T> struct remove_reference<T &> { typedef T type; }; template<class T> struct remove_reference<T &&> { typedef T type; };
template<class T> constexpr typename remove_reference<T>::type &&move(T &&t) { return static_cast<typename remove_reference<T>::type &&>(t); } }
template<class T> struct Vec { T *b; T *begin(); T *end(); const T *begin() const; const T *end() const; Vec(); Vec(const Vec &); ~Vec(); };
'''
HDR = STD + '''struct Nt { Nt(); Nt(const Nt &); }; struct Dt { ~Dt(); }; struct Tr { int a; };
'''
M = "int m() const; void n(); int f; "
# name: definition of a class, or the type itself
CLASSES = {}
for n in (1, 2, 4, 8, 12, 15, 16, 17, 20, 24, 32):
    CLASSES["Sz%d" % n] = "struct Sz%d { char c[%d]; int m() const; void n(); };" % (n, n)
for nm, body in {"Copy": "@(const @ &);", "Dtor": "~@();", "Both": "@(const @ &); ~@();", "DefCopy": "@(const @ &) = default;", "DefDtor": "~@() = default;", "Del": "@(const @ &) = delete; @(@ &&);", "DelTriv": "@(const @ &) = delete; @(@ &&) = default;", "Move": "@(@ &&);", "MoveCopy": "@(@ &&); @(const @ &) = default;", "Virt": "virtual void v();", "MemNt": "Nt x;", "MemDt": "Dt x;", "MemTr": "Tr x;", "ArrNt": "Nt x[2];", "Ctor": "@(int); @();", "Ptr": "void *p;", "Priv": "private: int z;", "Static": "static Nt x;", "RefM": "int &r;", "ConstM": "const int q;", "NcCopy": "@(@ &);", "DefOut": "@(const @ &);", "DelDtorMem": "int *q[2];", "Bits": "int b : 3; int c : 5;"}.items():
    CLASSES[nm] = "struct %s { %s %s };" % (nm, M, body.replace("@", nm))
CLASSES["DefOut"] = "struct DefOut { %s DefOut(const DefOut &); }; inline DefOut::DefOut(const DefOut &) = default;" % M
for nm, base in {"BNt": "Nt", "BDt": "Dt", "BTr": "Tr", "BVirt": "virtual Tr"}.items():
    CLASSES[nm] = "struct %s : %s { %s };" % (nm, base, M)
CLASSES["Un"] = "union Un { int a; double d; int m() const; void n(); };"
CLASSES["UnBig"] = "union UnBig { char a[20]; double d; int m() const; void n(); };"
CLASSES["Tm"] = "template<class T> struct Tm { T t; int m() const; void n(); };"
CLASSES["En"] = "enum En { E1 };"
CLASSES["Ec"] = "enum class Ec : char { E1 };"
CLASSES["Fwd"] = "struct Fwd;"
CLASSES["Lam"] = "inline auto lam = [x = Tr()] { return x.a; }; typedef decltype(lam) Lam;"
CLASSES["I0"] = "struct I0 { I0(int); ~I0(); };"
OPS = "struct @ { int m() const; void n(); int f; int a[2]; Tr i0; struct { int f; } i; %s @ &operator=(const @ &); @ &operator+=(int); void operator+(int) const; int operator[](int) const; void operator()(int); @ &operator++(); bool operator!() const; @ *operator->(); }; @ &operator<<(@ &, int); int operator>>(const @ &, int);"
CLASSES["Ops"] = OPS.replace("@", "Ops") % "Ops(const Ops &);"
CLASSES["OpsBig"] = OPS.replace("@", "OpsBig") % "char big[20];"
CLASSES["QSharedPointer"] = "template<class T> struct QSharedPointer { T *d; ~QSharedPointer(); }; template<class T> struct QWeakPointer { T *d; };"
CLASSES["QDebug"] = "struct QDebug { ~QDebug(); }; struct QColor { char c[32]; }; struct QGenericReturnArgument { char c[32]; };"
CLASSES["NSx"] = "namespace N { struct In { %s }; struct InNt { %s Nt x; }; }" % (M, M)
CLASSES["Td"] = "typedef Sz8 TdS; typedef Sz24 TdB; typedef Both TdN;"
TYPES = [c for c in CLASSES if c not in ("Tm", "NSx", "Td", "Fwd", "I0", "QSharedPointer", "QDebug")] + ["Tm<int>", "Tm<Nt>", "Tm<Sz20>", "N::In", "N::InNt", "TdS", "TdB", "TdN", "int", "bool", "char", "double", "long double", "__int128", "void *", "Tr *", "Both *", "const char *", "_Complex double", "decltype(nullptr)", "int (*)(int)", "Tr Tr::*", "void (Tr::*)()", "float __attribute__((vector_size(32)))"]
CLASSLIKE = [t for t in TYPES if t in CLASSES and t not in ("En", "Ec", "Lam") or t in ("Tm<int>", "Tm<Nt>", "Tm<Sz20>", "N::In", "N::InNt", "TdS", "TdB", "TdN")]
SOME = ["Sz8", "Sz16", "Sz17", "Both", "Copy", "Dtor", "MemNt", "Del", "int", "Tm<Nt>", "TdB", "Tr *"]
# kinds of functions: # is the list of parameters, @ a number, B the body; what is allowed
FUNCS = {"free": "void f@(#) { B }", "static": "static void f@(#) { B }", "inline": "inline void f@(#) { B }", "constexpr": "constexpr void f@(#) { B }", "extern C": 'extern "C" void f@(#) { B }', "decl+def": "void f@(#); void f@(#) { B }", "decl": "void f@(#);", "ns": "namespace n@ { void f(#) { B } }", "anon": "namespace { void f@(#) { B } }", "trailing": "auto f@(#) -> void { B }", "noexcept": "void f@(#) noexcept { B }", "try": "void f@(#) try { B } catch (int) { }",
         "method": "struct S@ { void f(#) { B } };", "const method": "struct S@ { void f(#) const { B } };", "static method": "struct S@ { static void f(#) { B } };", "out of line": "struct S@ { void f(#); }; void S@::f(#) { B }", "virtual": "struct S@ { virtual void f(#) { B } };", "ctor": "struct S@ { S@(#) { B } };", "explicit ctor": "struct S@ { explicit S@(#) { B } };", "ctor out": "struct S@ { S@(#); }; S@::S@(#) { B }", "private": "class S@ { void f(#) { B } };", "nested": "struct S@ { struct T { void f(#) { B } }; };", "local": "void g@() { struct L { void f(#) { B } }; }", "friend": "struct S@ { friend void f@(#) { B } };", "call operator": "struct S@ { void operator()(#) { B } };", "ref-qualified": "struct S@ { void f(#) & { B } };",
         "template": "template<class T> void f@(#) { B }", "template inst": "template<class T> struct S@ { void f(#) { B } }; template struct S@<int>;", "spec": "template<class T> void f@(T); template<> void f@<struct Y@>(struct Y@); template<class T> struct S@; template<> struct S@<int> { void f(#) { B } };", "lambda": "void g@() { [](#) { B }; }", "lambda var": "auto l@ = [](#) mutable { B };", "lambda capture": "void g@(int &k) { auto l = [&](#) { k = 1; B }; }", "variadic": "void f@(#, ...) { B }", "deleted": "void f@(#) = delete;", "ctor init": "struct S@ { int z; S@(#) : z(1) { B } };"}
OVERRIDE = "struct A@ { virtual void f(#); }; struct S@ : A@ { void f(#) override { B } };"
# uses of a parameter p of class type, and whether they modify or move it
USES = {"": 0, "p.m();": 0, "int i = p.m();": 0, "(void)p;": 0, "byConst(p);": 0, "byConst(p), byInt(p.m());": 0, "p.n();": 1, "if (p.m()) p.n();": 1, "byRef(p);": 1, "byPtr(&p);": 1, "[&] { p.n(); }();": 1, "while (p.m()) { byRef(p); }": 1, "use(p.m());": 0,  "int i = p.m(), j = p.m() + 1;": 0, "const auto &r = p; use(r.m());": 0, "byInt(1); p.n();": 1, "byInt(1);": 0, "byConst(p); byRef(p);": 1, "auto &r = p; r.n();": 1, "if (p.m()) { auto &r = p; }": 1, "(p).n();": 1, "S0 s; s << p;": 1, "S0 s; s << p.m();": 0, "S0 s; s >> p;": 0, "auto q = p.m() ? 1 : 2;": 0, "for (int i = 0; i < p.m(); ++i) { }": 0, "for (int i = 0; i < 3; ++i) { p.n(); }": 1, "do { p.n(); } while (0);": 1, "switch (p.m()) { case 1: p.n(); }": 1, "auto l = [&p] { byRef(p); };": 1, "{ { p.n(); } }": 1, "byInt(1), p.n();": 1, "int q = (p.n(), 1);": 1, "use(1, (byRef(p), 2));": 1, "sink(std::move(p));": 1, "byConst(std::move(p));": 1, "use(&p == nullptr);": 0, "p.n(), byConst(p);": 1, "Other o; o.n();": 0, "Other o; byOther(o); o = o;": 0}


def main():
    ck = Check("C16", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    states = trans = 0
    pre = HDR + "\n".join(CLASSES.values()) + "\n" + "struct Other { void n(); }; void byOther(Other &); void use(...); void byInt(int); struct S0 { template<class T> void operator<<(T &); template<class T> void operator>>(const T &); void operator<<(int); }; template<class T> void sink(T &&); template<class T> void byConst(const T &); template<class T> void byRef(T &); template<class T> void byPtr(T *);\n"
    # the compiler's view
    info = {}
    probe = pre + "template<bool a, bool b> struct R;\n" + "\n".join("typedef %s T%d;" % (t, i) if "(*)" not in t and "::*" not in t else "typedef %s;" % (t.replace("(*)", "(*T%d)" % i) if "(*)" in t else t.replace("::*", "::*T%d" % i)) for i, t in enumerate(TYPES)) + "\n"
    first = probe.count("\n") + 1
    probe += "\n".join("static_assert(sizeof(T%d) <= 16);\nstatic_assert(__is_trivially_constructible(T%d, const T%d &) && __is_trivially_destructible(T%d));" % (i, i, i, i) for i in range(len(TYPES))) + "\n"
    with tempfile.TemporaryDirectory() as t:
        open(t + "/x.cpp", "w").write(probe)
        r = subprocess.run([vbuild.CLANGXX, "-std=c++20", "-fsyntax-only", "-w", "-ferror-limit=0", t + "/x.cpp"], capture_output=True, text=True)
    er = re.findall(r"x\.cpp:(\d+):\d+: error: (.*)", r.stderr)
    if any("static assertion" not in e for _, e in er):
        raise RuntimeError([e for e in er if "static assertion" not in e[1]])
    bad = {int(l) - first for l, _ in er}
    for i, t in enumerate(TYPES):
        info[t] = (2 * i in bad, 2 * i + 1 in bad)          # big, not trivial
    ck.cov["types"] = {t: ("big " if v[0] else "") + ("nontrivial" if v[1] else "trivial") for t, v in info.items()}

    def decl(t, q, name):
        """q: how it is passed"""
        if "(*)" in t or "::*" in t:
            return None
        return {"v": "%s %s", "c": ("%s const %s" if t.endswith("*") else "const %s %s"), "cr": ("%s const &%s" if t.endswith("*") else "const %s &%s"), "r": "%s &%s", "rr": "%s &&%s", "ec": "%s const %s", "ecr": "%s const &%s"}[q] % (t, name)

    def ref(t, q, use=0):
        big, nt = info[t]
        if q in ("v", "c", "ec") and (big or nt) and not use:
            return "Missing reference on non-trivial type" if nt else "Missing reference on large type"
        return None

    def val(t, q):
        big, nt = info[t]
        return "Pass small and trivially-copyable type by value" if q in ("cr", "ecr") and not big and not nt else None

    def go(label, cases):
        nonlocal states, trans
        for check in ("range-loop-reference",) if "loop" in label else ("function-args-by-ref", "function-args-by-value"):
            ix = 1 if check.endswith("value") else 0
            res = batch.run(pool, ["-std=c++20", "-w"], '#include "pre.h"\n', [c[0] for c in cases], check, per=400, files={"/v/pre.h": pre})
            for c, r in zip(cases, res):
                states += 1
                want = c[1][ix]
                if want is None:
                    continue
                if isinstance(r, dict):
                    ck.violate("%s %s %s" % (check, label, c[0]), r)
                    continue
                got = sorted(re.sub(r"^.*?: ", "", x[2]).split(" (")[0] for x in r)
                trans += len(got)
                if got != sorted(want):
                    ck.violate("%s %s %s" % (check, label, c[0]), {"want": want, "got": got})
        ck.cov[label] = len(cases)
    number = itertools.count()

    def case(func, params, body, wr, wv):
        n = str(next(number))
        return (func.replace("@", n).replace("#", params).replace(" B ", " " + body + " ") + "\n", (wr, wv))

    def lst(x):
        return [x] if x else []
    # every type, in every kind of function
    cases = []
    for fn, f in FUNCS.items():
        for t in TYPES:
            for q in ("v", "c", "cr", "r", "rr") + (("ec", "ecr") if T else ()):
                for name in ("p", "") if T or fn in ("free", "method") else ("p",):
                    d = decl(t, q, name)
                    if d is None or fn == "constexpr" and not re.match("Sz|int|bool|char|Tr|En|Ec", t):
                        continue
                    none = fn in ("decl", "deleted")
                    cases.append(case(f, d, "", [] if none else lst(ref(t, q)), [] if none else lst(val(t, q))))
    go("types and functions", cases)
    # positions
    cases = []
    for t, u in itertools.product(SOME, repeat=2):
        for q1, q2 in itertools.product(("v", "cr"), repeat=2):
            for fn in ("free", "method", "ctor", "lambda", "decl+def", "out of line"):
                cases.append(case(FUNCS[fn], decl(t, q1, "p") + ", " + decl(u, q2, "q"), "", lst(ref(t, q1)) + lst(ref(u, q2)), lst(val(t, q1)) + lst(val(u, q2))))
    for n in range(1, 7):
        for k in range(n):
            for t in ("Both", "Sz17", "Sz8"):
                for q in ("v", "cr"):
                    ps = ", ".join(decl(t, q, "p") if i == k else "int a%d" % i for i in range(n))
                    for fn in FUNCS:
                        if fn not in ("decl", "deleted", "constexpr"):
                            cases.append(case(FUNCS[fn], ps, "", lst(ref(t, q)), lst(val(t, q))))
    go("positions", cases)
    # uses
    cases = []
    for u, mod in USES.items():
        for t in CLASSLIKE if T else ["Sz8", "Sz16", "Sz17", "Sz24", "Both", "Copy", "MemNt", "BNt", "Tm<Nt>", "N::InNt", "TdB", "TdN", "Virt", "UnBig"]:
            for fn in FUNCS:
                if fn in ("decl", "deleted", "constexpr"):
                    continue
                for q in ("v", "c", "cr"):
                    if mod and q != "v":
                        continue
                    cases.append(case(FUNCS[fn], decl(t, q, "p"), u, lst(ref(t, q, mod)), lst(val(t, q))))
                    if fn == "free" and not mod:
                        cases.append(case(FUNCS[fn], decl(t, q, "p") + ", Other p2", u + " p2.n();", lst(ref(t, q, mod)), lst(val(t, q))))
    go("uses", cases)
    # uses of a member: assignments, increments, references
    cases = []
    for u, mod in {"p.f = 1;": 1, "p.f += 1;": 1, "p.f++;": 1, "--p.f;": 1, "byRef(p.f);": 1, "int &r = p.f;": 1, "const int &r = p.f;": 0, "byInt(p.f);": 0, "byConst(p.f);": 0, "int i = p.f + 1; i++;": 0, "int i; i = p.f;": 0, "p.a[1] = 2;": 1, "p.a[1]++;": 1, "int &r = p.a[0];": 1, "byInt(p.a[0]);": 0, "p.i.f = 1;": 1, "p.i.f--;": 1, "byInt(p.i.f);": 0, "int i = p.f; i--; byRef(i);": 0, "p = p;": 1, "p += 1;": 1, "p + 1;": 0, "p[1];": 0, "p(1);": 1, "++p;": 1, "!p;": 0, "p << 1;": 1, "p >> 1;": 0, "p->f = 1;": 1, "S0 s; s >> p.f;": 0}.items():
        for fn in FUNCS:
            if fn not in ("decl", "deleted", "constexpr"):
                for t in ("Ops", "OpsBig"):
                    cases.append(case(FUNCS[fn], decl(t, "v", "p"), u, lst(ref(t, "v", mod)), []))
                    if T:
                        cases.append(case(FUNCS[fn], decl(t, "v", "p") + ", " + decl(t, "v", "q"), u, lst(ref(t, "v", mod)) + lst(ref(t, "v", 0)), []))
    go("uses of members and operators", cases)
    # constructors, overrides and operators
    cases = []
    for t in ("Sz8", "Sz16", "Sz17", "Both", "Copy", "Dtor", "MemNt", "N::In", "Tm<Nt>", "TdB", "int"):
        for q in ("v", "c", "cr"):
            d, w, v = decl(t, q, "p"), lst(ref(t, q)), lst(val(t, q))
            for f, cw, cv in (("struct S@ { %s z; S@(#) : z(p) { } };" % t, w, v), ("struct S@ { const %s &z; S@(#) : z(p) { } };" % t, w, []), ("struct S@ : I0 { %s z; S@(#) : I0(1), z(p) { } };" % t, w, v),
                              ("struct S@ { int a; const %s &z; int b; S@(#) : a(0), z(p), b(0) { } };" % t, w, []), ("struct S@ { const %s &z; %s y; S@(#) : z(y), y(p) { } };" % (t, t), w, v),
                              ("struct S@ { void operator+(#) { } };", w, v), ("struct S@ { void operator<<(#) { } };", [], []), ("struct S@ { }; void operator+(S@, #) { }", w, v), ("struct S@ { }; void operator<<(S@, #) { }", [], []),
                              ("struct S@ { void operator=(#) { } };", w, []), ("struct S@ { void operator==(#) { } };", w, []), ("struct S@ { void operator!=(#) { } };", w, v), ("struct S@ { void operator()(#) { } };", w, v), ("struct S@ { void operator[](#) { } };", w, v), ("struct S@ { bool operator<(#) { return 1; } };", w, v),
                              ("struct A@ { virtual void f(#); }; struct S@ : A@ { void f(#) override { } };", w, []), ("struct A@ { virtual void f(#) { } }; struct S@ : A@ { };", w, v), ("struct A@ { virtual void f(int); }; struct S@ : A@ { virtual void f(#) { } };", w, v), ("struct A@ { virtual void f(#); }; struct S@ : A@ { void f(#); }; void S@::f(#) { }", w, []),
                              ("struct A@ { void f(#); }; struct S@ : A@ { void f(#) { } };", w, v), ("struct A@ { virtual void f(#); }; struct B@ : A@ { }; struct S@ : B@ { void f(#) { } };", w, []), ("struct A@ { virtual void f(#) = 0; }; void A@::f(#) { }", w, v)):
                cases.append(case(f, d, "", cw, cv))
            if q != "cr":
                m = t not in ("int",)
                for f, mod in (("struct S@ { %s z; S@(#) : z(std::move(p)) { } };", q == "v" or True), ("struct S@ : I0 { int y; %s z; S@(#) : I0(1), y(0), z(std::move(p)) { } };", True), ("struct S@ { %s z; S@(#) : z{std::move(p)} { } };", q == "v")):
                    if q == "v":
                        cases.append(case(f % t, d, "", [] if mod else w, v))
    for t in ("Sz1", "Sz8", "Sz16"):            # a copy constructor has to take its argument by reference
        cases += [("struct C%s { char c[4]; C%s(const C%s &) { } };\n" % ((t,) * 3), ([], [])), ("struct D%s { char c[4]; D%s(const D%s &, int) { } };\n" % ((t,) * 3), ([], ["Pass small and trivially-copyable type by value"])),
                  ("struct E%s { char c[4]; E%s(const E%s &) = default; };\n" % ((t,) * 3), ([], [])), ("struct F%s { char c[4]; F%s &operator=(const F%s &) = default; };\n" % ((t,) * 3), ([], []))]
    for n in ("QSharedPointer<int>", "QDebug", "QColor", "QGenericReturnArgument"):
        for q in ("v", "c", "cr"):
            cases += [case(FUNCS["free"], decl(n, q, "p"), "", [], []), case(FUNCS["method"], decl(n, q, "p"), "", [], [])]
    go("constructors, overrides and operators", cases)
    # range-based for loops
    cases = []
    LOOPTYPES = [t for t in TYPES if decl(t, "v", "x") and t not in ("En", "Ec", "Fwd", "Lam") and "_" not in t]
    for t in LOOPTYPES:
        nt = info[t][1]
        for var, q in (("%s x" % t, "v"), ("const %s x" % t if not t.endswith("*") else "%s const x" % t, "c"), ("%s &x" % t, ""), ("const %s &x" % t if not t.endswith("*") else "%s const &x" % t, ""), ("%s &&x" % t, ""), ("auto x", "v"), ("const auto x", "c"), ("auto &x", ""), ("const auto &x", ""), ("auto &&x", ""), ("auto const x", "c")):
            for head, obj, record in (("Vec<%s> v" % t, "v", 1), ("Vec<%s> &v" % t, "v", 1), ("const Vec<%s> &v" % t, "v", 1), ("Vec<%s> (&v)[2]" % t, "v[1]", 1), ("", "Vec<%s>()" % t, 1), ("%s (&v)[2]" % t if not t.endswith("*") and "(" not in t else "", "v", 0)):
                if not head and obj == "v" or head.startswith("const") and (var.startswith(t + " &") or var.endswith("&&x") and not var.startswith("auto")):
                    continue
                if var.endswith("&&x") and not var.startswith("auto"):
                    continue
                if q and (t in ("Del", "DelTriv") or t in ("Move", "NcCopy")):
                    continue
                w = "Missing reference in range-for with non trivial type" if nt and q and record else None
                for f in ("void f@(%s) { for (#: %s) { B } }", "template<class U> void f@(%s) { for (#: %s) { B } }", "struct S@ { void f(%s) { if (1) for (#: %s) { B } } };", "void f@() { auto l = [](%s) { for (#: %s) if (1) { B } }; }") if T or t in SOME else ("void f@(%s) { for (#: %s) { B } }",):
                    cases.append(case(f % (head, obj), var, "", [w] if w else [], []))
                    if t in CLASSLIKE and q and record:
                        for u, mod in USES.items():
                            if mod and q == "c" or u.startswith("Other") or "switch" in u:
                                continue
                            if not T and not (t == "Both" or t == "Tm<Nt>" and u in ("p.n();", "byConst(p);")):
                                continue
                            cases.append(case(f % (head, obj), var, re.sub(r"\bp\b", "x", u), [w] if w and not mod else [], []))
    go("range-based for loops", cases)
    ck.cov.update({"states": states, "transitions": trans, "traces_validated_against_impl": states, "exhaustive": True})
    ck.finish()


if __name__ == "__main__":
    main()
