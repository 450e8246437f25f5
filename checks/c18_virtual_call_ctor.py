"""C18: virtual-call-ctor. Every call graph over up to three methods (plus constructor, destructor and a pure virtual method), and every
combination of call forms, against graph reachability."""
import itertools
import vbuild, batch
from drv import Pool
from report import Check

CHECK = "virtual-call-ctor"


class Case:
    """methods: {name: (kind, [(form, target)])}; kinds: plain, virtual, const, pure, decl, static"""

    def __init__(self, key, src, want):
        self.key, self.src, self.want = key, src, want


def graph_case(n, k, ctor, bodies, virt, outline):
    """Methods m0..mk-1 with bodies (ordered target lists over m*, 'p', 'q')."""
    pre = ["struct K%d {" % n]
    want = []

    def reach(t, seen):
        if t == "p":
            return True
        if t == "q" or t in seen:
            return False
        seen.add(t)
        return any(reach(u, seen) for u in bodies[t])
    L = pre
    defs = []

    def body(targets):
        return [("        %s();" % t) for t in targets]

    def emit(where, head, targets):
        where.append(head + " {")
        at = len(where)
        where.extend(body(targets))
        where.append("}")
        return at
    marks = []
    if outline:
        L.append("K%d(); ~K%d();" % (n, n))
    for t, name in ((ctor, "K%d()" % n), (list(reversed(ctor)), "~K%d()" % n)):
        if not outline:
            at = emit(L, name, t)
            marks.append((L, at, t, "CTOR" if name[0] == "K" else "DTOR"))
    for i in range(k):
        m = "m%d" % i
        v = "virtual " if virt >> i & 1 else ""
        if outline and i == 0:
            L.append("%svoid %s();" % (v, m))
            defs.append((m, bodies[m]))
        else:
            emit(L, "%svoid %s()" % (v, m), bodies[m])
    L += ["virtual void p() = 0;", "virtual void q() { }", "};"]
    if outline:
        for t, name in ((ctor, "K%d::K%d()" % (n, n)), (list(reversed(ctor)), "K%d::~K%d()" % (n, n))):
            at = emit(L, name, t)
            marks.append((L, at, t, "DTOR" if "~" in name else "CTOR"))
        for m, t in defs:
            emit(L, "void K%d::%s()" % (n, m), t)
    for _, at, t, what in marks:
        for j, u in enumerate(t):
            if reach(u, set()):
                want += [(at - 1, "Calling pure virtual function in " + what), (at + j, "Called here")]
                break
    key = "graph k=%d ctor=%s %s virt=%d outline=%d" % (k, ",".join(ctor), " ".join("%s:%s" % (m, ",".join(b)) for m, b in sorted(bodies.items())), virt, outline)
    return Case(key, "\n".join(L) + "\n", sorted(want))


# call forms: (template, counts). @ is the method, K the class.
FORMS = [("@();", 1), ("this->@();", 1), ("(@());", 1), ("((this))->@();", 1), ("int x = @();", 1), ("if (@()) { }", 1), ("if (c) @(); else ++c;", 1), ("while (@()) break;", 1),
         ("do { ++c; } while (@());", 1), ("for (int i = @(); i < 0; ++i) ;", 1), ("for (;;) { { @(); } break; }", 1), ("switch (@()) { default: ; }", 1), ("switch (c) { case 1: @(); }", 1),
         ("c = c ? @() : 0;", 1), ("c = c && @();", 1), ("ext(1, @());", 1), ("id(@());", 1), ("c = -(@() + 1);", 1), ("try { @(); } catch (...) { }", 1), ("try { } catch (...) { @(); }", 1),
         ("S s{@()};", 1), ("int a[] = {1, @()};", 1), ("static_cast<void>(@());", 1), ("goto l; l: @();", 1), ("c = (1, @());", 1), ("new int(@());", 1), ("throw @();", 1), ("other.n(@());", 1),
         ("[this] { @(); };", 0), ("[this] { return @(); }();", 0), ("[&] { if (c) this->@(); };", 0), ("ext2([this] { @(); });", 0), ("[&] { [&] { @(); }; };", 0),
         ("o->@();", 0), ("K &r = *o; r.@();", 0), ("auto *t = this; t->@();", 0), ("get()->@();", 0), ("int (K::*f)() QUAL = &K::@; (void)f;", 0), ("ext(1, sizeof(@()));", None), ("@2();", 0), ("@2(); this->@2();", 0),
         ("struct Z { int @() { return 0; } void z() { @(); } }; Z().@();", 0), (";", 0), ("K::st(o);", 0)]
SUPPORT = "int ext(int, int); template<class T> void ext2(T) { } struct S { int x; }; struct N { int n(int) const; };\n"


def form_case(n, f1, f2, what, outline, kind, pk):
    """constructor or destructor -> (f1) m -> (f2) p"""
    K = "F%d" % n
    L = ["struct %s {" % K]
    q = " const" if "const" in kind else ""
    t1, t2 = f1[0].replace("@", "m").replace("K", K), f2[0].replace("@", "p").replace("K", K)
    t1, t2 = t1.replace("QUAL", q), t2.replace("QUAL", q)
    name = ("~" if what == "DTOR" else "") + K + "()"
    call = lambda t: ["        " + t]
    want = []
    hit = f1[1] and f2[1]
    m_head = ("virtual " if "virtual" in kind else "") + "int %sm()" + q
    ptype = {"pure": "virtual int p()%s = 0;", "final": "virtual int p()%s { return 0; }", "plain": "int p()%s { return 0; }", "override": "int p()%s override = 0;", "overridden": "int p()%s override { return 0; }"}[pk]
    base = "struct B%s { virtual int p()%s = 0; };\n" % (K, q) if pk.startswith("overr") else ""
    if base:
        L = base.split("\n")[:-1] + ["struct %s : B%s {" % (K, K)]
    hit = hit and pk in ("pure", "override")
    L += ["%s *o; %s *get()%s; N other; int id(int)%s; mutable int c; static int st(%s *k) { return k->p(); } int m2()%s { return 0; } int p2()%s { return 0; } int m(int)%s { return p(); } int p(int)%s { return m(1); }" % (K, K, q, q, K, q, q, q, q)]
    mb = [m_head % (K + "::" if outline else "") + " {"] + call(t2) + ["return 0; }"]
    cb = [(K + "::" if outline else "") + name + " {"] + call(t1) + ["}"]
    if outline:
        mb[0] = mb[0].replace("virtual ", "")
        L += [name + ";", m_head % "" + ";", ptype % q, "};"]
        first = len(L)
        L += cb + mb if outline == 1 else mb + cb
        if outline == 2:
            first = len(L) - len(cb)
    else:
        first = len(L)
        L += cb + mb + [ptype % q, "};"]
    if hit:
        want = [(first, "Calling pure virtual function in " + what), (first + 1, "Called here")]
    return Case("forms %s|%s|%s|outline=%d|%s|%s" % (what, f1[0], f2[0], outline, kind, pk), "\n".join(L) + "\n", want)


def main():
    ck = Check("C18", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    cases = []

    def orders(nodes, maxn):
        for k in range(maxn + 1):
            yield from (list(c) for c in itertools.combinations(nodes, k))
    # Every call graph
    n = 0
    two = ["m0", "m1", "p"]
    for outline in (0, 1):
        for b0, b1, c in itertools.product(list(orders(two, 3)), list(orders(two, 3)), list(orders(two + ["q"], 2))[1:]):
            cases.append(graph_case(n, 2, c, {"m0": b0, "m1": b1}, n % 4, outline))
            n += 1
    three = ["m0", "m1", "m2", "p"]
    subs = list(orders(three, 4 if T else 3))
    for bs in itertools.product(subs, repeat=3):
        for c in (["m0"],) if not T else list(orders(three + ["q"], 2))[1:]:
            cases.append(graph_case(n, 3, c, dict(zip(("m0", "m1", "m2"), bs)), n % 8, 0))
            n += 1
    # cycles and chains of length k
    for k in range(4, 13 if not T else 60, 1):
        for back in range(k):
            for pure in (False, True):
                bodies = {"m%d" % i: ["m%d" % (i + 1)] for i in range(k - 1)}
                bodies["m%d" % (k - 1)] = ["m%d" % back] + (["p"] if pure else ["q"])
                cases.append(graph_case(n, k, ["q", "m0"], bodies, n % (1 << k), n % 2))
                n += 1
    ck.cov["call_graphs"] = n
    # Every pair of call forms
    plain = FORMS[0]
    use = [f for f in FORMS if f[1] is not None]
    for f1, f2 in itertools.product(use, use):
        for what, outline, kind, pk in itertools.product(("CTOR", "DTOR"), (0, 1, 2), ("plain", "const", "virtual"), ("pure", "final", "plain", "override", "overridden")):
            small = (f1 is plain) + (f2 is plain) + (what == "CTOR") + (outline == 0) + (kind == "plain") + (pk == "pure")
            if small >= (3 if T else 4):
                cases.append(form_case(n, f1, f2, what, outline, kind, pk))
                n += 1
    # single shapes
    X = lambda s, w: cases.append(Case("shape " + s, s + "\n", w))
    W = [(0, "Calling pure virtual function in CTOR"), (0, "Called here")]
    X("struct X1 { X1(); virtual void g() = 0; void h() { g(); } };", [])
    X("struct X2 { X2() { h(); } void h(); virtual void g() = 0; };", [])
    X("struct X3 { X3() { struct Y { virtual void g() = 0; void h() { g(); } }; } virtual void g() = 0; };", [])
    X("struct X4 { X4() { } X4(int) { g(); } X4(long) { h(); } void h() { } virtual void g() = 0; };", W)
    X("struct X5 { X5() { g(1); } virtual void g() = 0; void g(int) { } };", [])
    X("struct X6 { X6() { g(); } virtual void g() = 0; void g(int) { } };", W)
    X("struct X7 { struct I { I() { k(); } void k() { } virtual void g() = 0; }; virtual void k() = 0; X7() { I *i; i->g(); } };", [])
    X("struct X8 { virtual void g() = 0; X8() { g(); } ~X8() { g(); } };", sorted(W + [(0, "Calling pure virtual function in DTOR"), (0, "Called here")]))
    X("namespace N1 { class X9 { public: X9() { g(); } private: virtual void g() = 0; }; }", W)
    X("struct XA { XA() = default; ~XA() = default; virtual void g() = 0; };", [])
    X("struct XB { XB() try { g(); } catch (...) { } virtual void g() = 0; };", W)
    X("struct XC { operator int() { return g(); } virtual int g() = 0; XC() { this->operator int(); } };", W)
    X("struct XD { virtual XD &operator+=(int) = 0; XD() { this->operator+=(1); } };", W)
    ck.cov["cases"] = len(cases)
    got = batch.run(pool, ["-std=c++17", "-w", "-fcxx-exceptions"], SUPPORT, [c.src for c in cases], CHECK, per=400)
    nwarn = 0
    for c, g in zip(cases, got):
        if isinstance(g, dict):
            ck.violate(c.key, {"source": c.src, "result": g})
            continue
        o = sorted((l, m) for l, _, m, *_ in g)
        nwarn += bool(o)
        if o != sorted(c.want):
            ck.violate(c.key, {"source": c.src, "want": c.want, "got": o})
    ck.cov.update({"states": len(cases), "transitions": sum(c.src.count("();") for c in cases), "traces_validated_against_impl": len(cases), "warned": nwarn, "exhaustive": True})
    for i in (5, 600, len(cases) - 100):
        ck.sample({"case": cases[i].key, "want": cases[i].want})
    ck.finish()
