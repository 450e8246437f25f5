"""C20: connect() and its relatives. The cross product of argument forms, compiled against the headers of Qt 5 and Qt 6, against a model of
what each form means."""
import itertools, os, re
import vbuild, batch
from drv import Pool, QT5, QT6
from report import Check

DEFS = '''#include <QtCore/qobject.h>
#include <QtCore/qtimer.h>
#include <QtCore/qpointer.h>
#include <QtWidgets/qmenu.h>
#include <functional>
#include <chrono>
class C : public QObject { Q_OBJECT
public: void plain(); static void stat(); void ov(); void ov(int); void cst() const; void co(); void co() const; Q_INVOKABLE void inv(); virtual void virt(); void body();
signals: void sig(); void sov(int); void sov(const QString &); void sc() const; void sc(); void psig(QPrivateSignal); void sint(int);
public slots: void slot(); void slotov(); void slotov(int); void sint2(int);
private: Q_SLOT void qslot(); Q_SIGNAL void qsig(); };
class D : public C { Q_OBJECT
signals: void dsig();
public: void dplain(); };
struct A { int v; C *c; C vc; };
class B : public C { Q_OBJECT public: C *m, *m2; C vm; QPointer<C> qp; int mi; };
C *get(); C &ref(); void gf(); void gfi(int); struct Fn { void operator()() const; void operator()(int) const; }; template<class T> T wrap(T t);
extern C *gobj; extern C vg; extern int gi;
'''
SIGNALS = {"sig", "sov", "sc", "psig", "sint", "dsig", "destroyed", "objectNameChanged", "qsig"}
# forms of a pointer to the member function N of class K with the parameters P
PMF = ["&K::N", "(&K::N)", "((&K::N))"]
OVER = ["QOverload<P>::of(&K::N)", "qOverload<P>(&K::N)", "static_cast<void (K::*)(P)>(&K::N)", "(void (K::*)(P))(&K::N)", "(void (K::*)(P))&K::N", "(QOverload<P>::of(&K::N))", "qOverload<P>((&K::N))", "static_cast<void (K::*)(P)>((&K::N))", "static_cast<void (K::*)(P)>(QOverload<P>::of(&K::N))"]
CONSTS = [("qConstOverload<>(&C::co)", "co"), ("qNonConstOverload<>(&C::co)", "co"), ("qConstOverload<>(&C::sc)", "sc"), ("qNonConstOverload<>(&C::sc)", "sc"), ("static_cast<void (C::*)() const>(&C::sc)", "sc"), ("static_cast<void (C::*)() const>(&C::co)", "co")]


def main():
    ck = Check("C20", "model_checking")
    pool = Pool(vbuild.build())
    T = ck.thorough()
    tot = dict(states=0, transitions=0)

    def judge(qt, check, cases, strip=None, exact=True):
        root = QT5 if qt == 5 else QT6
        args = ["-std=c++17", "-fPIC", "-w", "-ferror-limit=0", "-fno-access-control", "-isystem", root] + sum((["-isystem", os.path.join(root, d)] for d in ("QtCore", "QtGui", "QtWidgets")), [])
        srcs = [c[0].replace("@", str(i)) for i, c in enumerate(cases)]
        for src, (_, want), g in zip(srcs, cases, batch.run(pool, args, '#include "defs.h"\n', srcs, check, per=max(100, -(-len(srcs) // 16)), files={"/v/defs.h": DEFS})):
            tot["states"] += 1
            if isinstance(g, dict):
                ck.violate("%s qt%d %s" % (check, qt, src[:200]), g)
                continue
            o = sorted((x[0], x[2]) for x in g)
            tot["transitions"] += len(o)
            if o != sorted(want):
                ck.violate("%s qt%d %s" % (check, qt, " ".join(src.split())[:250]), {"source": src, "expected": sorted(want), "reported": o})
    for qt in (5, 6):
        # A. connect-non-signal: every form of the signal argument
        sigs = []
        for k, n in [("C", x) for x in ("plain", "cst", "inv", "virt", "slot", "body", "sig", "psig", "qslot", "qsig", "stat")] + [("D", x) for x in ("dplain", "dsig", "sig", "slot", "deleteLater")] + [("QObject", "deleteLater"), ("QObject", "objectNameChanged")] + ([("QObject", "destroyed")] if qt == 5 or True else []):
            for f in PMF:
                if n != "stat":
                    sigs.append((f.replace("K", k).replace("N", n), k, n))
        for k, n, p in (("C", "ov", ""), ("C", "ov", "int"), ("C", "sov", "int"), ("C", "sov", "const QString &"), ("C", "slotov", "int"), ("C", "slotov", ""), ("C", "sint", "int"), ("C", "sint2", "int"), ("C", "sig", ""), ("C", "plain", ""), ("D", "sint", "int"), ("D", "sov", "int"), ("D", "ov", "int"), ("D", "dsig", "")):
            inherited = k == "D" and n != "dsig"
            for f in OVER:
                if f.startswith("(void") and "QOverload" in f:
                    continue
                if inherited:
                    continue
                sigs.append((re.sub(r"\\b[KNP]\\b".replace("\\\\", "\\"), lambda m: {"K": k, "N": n, "P": p}[m.group()], f), k, n))
        sigs += [(e, "C", n) for e, n in CONSTS]
        sigs += [("v_" + n, "C", n) for n in ("sig", "plain", "slot")]
        SND = ["c", "this", "m", "&vl", "get()", "gobj", "qp.data()", "static_cast<C *>(c)", "(c)"] 
        RCV = [", d, &C::slot", ", d, [] {}", ", [] {}", ", this, &C::plain, Qt::QueuedConnection", ", d, &C::sig", ", d, Fn()", ", gf", ", d, &C::stat", ", m, qOverload<>(&C::slotov), Qt::UniqueConnection", ", this, [this] { slot(); }, Qt::DirectConnection"]
        cases = []
        for (e, k, n), (i, s), (j, r), call in itertools.product(sigs, enumerate(SND), enumerate(RCV), ("QObject::connect", "connect", "c->connect", "C::connect", "auto x@ = QObject::connect", "if (true) connect")):
            if not T and not (i == 0 and j == 0 or i == 0 and call == "connect" or j == 1 and call == "QObject::connect") and call not in ("connect",):
                continue
            if not T and i and j:
                continue
            if k == "D" and not s.startswith(("get", "c", "&vl")) or k == "D":
                s = "static_cast<D *>(c)"
            src = "void f@(C *c, C *d);\nstruct S@ : B { void f(C *c, C *d) { C vl; auto v_sig = &C::sig; auto v_plain = &C::plain; auto v_slot = &C::slot;\n%s(%s, %s%s);\n} };" % (call, s, e, r)
            cases.append((src, [] if n in SIGNALS else [(2, "%s::%s is not a signal" % ("QObject" if n in ("deleteLater",) else "C" if k == "D" and not n.startswith("d") else k, n))]))
        cases = list({s: (s, w) for s, w in cases}.values())
        judge(qt, "connect-non-signal", cases)
        # B. lambda-unique-connection: every form of the connection type and of the slot
        TYPES = [("Qt::UniqueConnection", 1), ("Qt::ConnectionType(Qt::UniqueConnection | Qt::QueuedConnection)", 1), ("static_cast<Qt::ConnectionType>(Qt::AutoConnection | Qt::UniqueConnection)", 1), ("(Qt::ConnectionType)(Qt::UniqueConnection | Qt::DirectConnection)", 1), ("(Qt::UniqueConnection)", 1), ("static_cast<Qt::ConnectionType>(int(Qt::QueuedConnection) | int(Qt::UniqueConnection))", 1), ("Qt::ConnectionType(Qt::UniqueConnection)", 1),
                 ("Qt::AutoConnection", 0), ("Qt::QueuedConnection", 0), ("Qt::ConnectionType(Qt::QueuedConnection | Qt::DirectConnection)", 0), ("Qt::BlockingQueuedConnection", 0), (None, 0)]
        SLOTS = [(f.replace("K", "C").replace("N", n), 0) for f in PMF for n in ("slot", "plain", "cst", "sig", "virt")] + [(re.sub(r"\b[KNP]\b", lambda m: {"K": "C", "N": "slotov", "P": ""}[m.group()], f), 0) for f in OVER] + [("qNonConstOverload<>(&C::co)", 0), ("qConstOverload<>(&C::co)", 0), ("pm", 0), ("pp", 0), ("&QObject::deleteLater", 0), ("true ? &C::slot : &C::plain", 0),
                 ("[] {}", 1), ("[=] { d->slot(); }", 1), ("([] {})", 1), ("lv", 1), ("gf", 1), ("&gf", 1), ("*gf", 1), ("Fn()", 1), ("fn", 1), ("std::function<void()>(gf)", 1), ("std::bind(&C::slot, d)", 1), ("&C::stat", 1), ("C::stat", 1), ("fp", 1), ("wrap([] {})", 1), ("[&] () mutable {}", 1)]
        cases = []
        for (t, u), (s, nonm), (e, snd), call in itertools.product(TYPES, SLOTS, (("&C::sig", "c"), ("qOverload<int>(&C::sov)", "c"), ("&C::sig", "this"), ("static_cast<void (C::*)(const QString &)>(&C::sov)", "get()")), ("QObject::connect", "connect")):
            if call == "connect" and (snd != "c" or "qOver" in e) and not T:
                continue
            src = "struct S@ : B { void f(C *c, C *d, void (C::*pp)()) { auto lv = [] {}; Fn fn; auto pm = &C::slot; void (*fp)() = gf; (void)lv; (void)pm; (void)fp; (void)fn;\n%s(%s, %s, d, %s%s);\n} };" % (call, snd, e, s, ", " + t if t else "")
            cases.append((src, [(1, "UniqueConnection is not supported with non-member functions")] if u and nonm else []))
        judge(qt, "lambda-unique-connection", cases)
        # C. connect-3arg-lambda: which objects the lambda uses, besides the sender
        SND = [("a", "a"), ("b", "b"), ("(a)", "a"), ("static_cast<C *>(a)", "a"), ("&va", "va"), ("this", "this"), ("m", None), ("this->m", None), ("&vm", None), ("a->m", None), ("get()", None), ("gobj", "gobj"), ("&vg", "vg"), ("qp.data()", None), ("&ref()", None), ("(this)", "this") if False else ("st.c", None)]
        USE = [("", ""), ("a->slot();", "a"), ("b->slot();", "b"), ("va.slot();", "va"), ("slot();", "this"), ("this->plain();", "this"), ("m->slot();", "this"), ("(void)mi;", "this"), ("(void)n;", ""), ("n++; int k = n; (void)k;", ""), ("gf();", ""), ("stat();", ""), ("gobj->slot();", "gobj"), ("vg.slot();", "vg"), ("(void)(a == b);", "a b"), ("if (n) { b->slot(); }", "b"), ("auto l = [=] { b->slot(); }; l();", "b"),
               ("for (C *x = a; ; ) { break; }", "a"), ("a->m->slot();", "a"), ("get()->slot();", None), ("gi = n;", ""), ("(void)s;", ""), ("st.v = 1;", ""), ("st.c->slot();", None), ("connect(b, &C::sig, b, &C::slot);", None), ("emit a->sig();", "a"), ("delete b;", "b"), ("qp->slot();", "this"), ("C *z = nullptr; z->slot();", "z"), ("C z; z.slot();", "z"), ("(void)sizeof(int);", "")]
        FORM = [("%s", 1), ("(%s)", 1), ("std::function<void()>(%s)", 1)]
        cases = []
        for (s, who), uses, (fm, on), ctx in itertools.product(SND, itertools.chain(((u,) for u in USE), itertools.product(USE[1:8] if not T else USE[1:], repeat=2)), FORM, ("[=]() mutable", "[&]")):
            if any(w is None for _, w in uses):
                continue
            if ctx != "[&]" and any(u[0].startswith(("va.", "st.")) for u in uses):
                continue
            if len(uses) > 1 and (fm != "%s" or ctx == "[&]") or fm != "%s" and ctx == "[&]":
                continue
            used = set(" ".join(w for _, w in uses).split())
            warn = bool(used - {"this", who}) or "this" in used and who != "this"
            body = " ".join("{ %s }" % c for c, _ in uses)
            src = "struct S@ : B { void f(B *a, C *b, int n, QString s) { C va; A st;\nconnect(%s, &C::sig, %s);\n} };" % (s, fm % ("%s { %s }" % (ctx, body)))
            cases.append((src, [(1, "Pass a context object as 3rd connect parameter")] if warn else []))
            if uses in ((USE[2],), (USE[4],)):
                for alt in ("connect(%s, &C::sig, a, %%s);", "connect(%s, &C::sig, this, %%s, Qt::QueuedConnection);", "auto lam = %%s; connect(%s, &C::sig, lam);", "disconnect(%s, &C::sig, nullptr, nullptr); auto l2 = %%s;"):
                    cases.append(("struct S@ : B { void f(B *a, C *b, int n, QString s) { C va; A st;\n%s\n} };" % ((alt % s) % ("%s { %s }" % (ctx, body))), []))
        judge(qt, "connect-3arg-lambda", cases)
        # D. singleShot() and addAction()
        F = ["[] {}", "[=] { a->slot(); }", "lv", "gf", "Fn()", "std::function<void()>(gf)", "[this] { slot(); }"]
        W2, W3, WM = "Pass a context object as 2nd singleShot parameter", "Pass a context object as 3rd singleShot parameter", "Pass a context object as 2nd addAction parameter"
        cases = []
        for f in F:
            for t in ("0", "n", "std::chrono::seconds(1)", "std::chrono::milliseconds(n)"):
                for call, w in (("QTimer::singleShot(%s, %s);", W2), ("QTimer::singleShot(%s, Qt::CoarseTimer, %s);", W3), ("QTimer::singleShot(%s, a, %s);", None), ("QTimer::singleShot(%s, Qt::PreciseTimer, a, %s);", None), ("QTimer::singleShot(%s, this, %s);", None), ("if (n) QTimer::singleShot(%s, %s);", W2)):
                    cases.append((call % (t, f), w))
            for call, w in (("menu.addAction(s, %s);", WM), ("menu.addAction(\"x\", %s);", WM), ("mp->addAction(s, %s);", WM), ("menu.addAction(s, a, %s);", None), ("mp->addAction(s, this, %s);", None), ("QMenu().addAction(s, %s);", WM)):
                cases.append((call % f, w))
        for c in ("QTimer::singleShot(0, a, &C::slot);", "QTimer::singleShot(0, a, SLOT(slot()));", "QTimer::singleShot(0, Qt::CoarseTimer, a, &C::slot);", "QTimer::singleShot(std::chrono::seconds(1), a, SLOT(slot()));", "menu.addAction(s, a, &C::slot);", "menu.addAction(s, a, SLOT(slot()));", "menu.addAction(s);", "QTimer t; t.start(3);"):
            cases.append((c, None))
        judge(qt, "connect-3arg-lambda", [("struct S@ : B { void f(C *a, QMenu *mp, int n, QString s) { QMenu menu; auto lv = [] {}; (void)lv;\n%s\n} };" % c, [(1, w)] if w else []) for c, w in cases])
        # E. lambda-in-connect: captures by reference of local variables
        VARS = {"i": 1, "p": 1, "b": 1, "vb": 1, "st": 1, "ar": 1, "pi": 0, "a": 0}
        CAPS = [("", []), ("=", [])] + [("&" + v, [v]) for v in VARS] + [(v, []) for v in ("i", "b", "pi")] + [("&i, &p", ["i", "p"]), ("i, &p", ["p"]), ("&i, p", ["i"]), ("=, &i", ["i"]), ("&, i", ["*"]), ("&", ["*"]), ("this, &i", ["i"]), ("this", []), ("&i, &pi, &b", ["i", "pi", "b"]), ("&r = i", ["i"]), ("r = i", []), ("r = &i", []), ("=, &vb", ["vb"])]
        SND = [("a", 1), ("b", 1), ("this", 1), ("m", 1), ("&va", 0), ("&vb", 0), ("get()", 1), ("gobj", 1), ("(a)", 1), ("static_cast<C *>(b)", 1), ("&vm", 1), ("&vg", 0), ("wrap(a)", 1)]
        RCV = [(None, 1, ""), ("a", 1, "a"), ("b", 1, "b"), ("&vb", 0, "vb"), ("&va", 0, "va"), ("this", 1, ""), ("m", 1, ""), ("get()", 1, ""), ("gobj", 1, "")]
        cases = []
        for (s, s1), (r, r1, rv), (cap, refs), (body, used) in itertools.product(SND, RCV, CAPS, (("", []), ("(void)i;", ["i"]), ("(void)p; (void)b; (void)pi;", ["p", "b", "pi"]), ("i = i + (i ? pi : ar[0]);", ["i", "pi", "ar"]))):
            if body and (cap not in ("&", "&, i", "=") or cap in ("&, i", "=") and "i =" in body):
                continue
            rr = [v for v in (used if refs == ["*"] else refs) if not ("i" == v and cap == "&, i")]
            cnt = len([v for v in rr if VARS[v] and v != rv]) if s1 and r1 else 0
            for call, on in (("connect(%s);", 1), ("QObject::connect(%s);", 1)) if T or r is None else (("connect(%s);", 1),):
                arg = "%s, &C::sig%s, [%s] { %s }" % (s, ", " + r if r else "", cap, body)
                cases.append(("struct S@ : B { void f(C *a, int pi) { int i = 0; int *p = nullptr; C *b = nullptr; C va, vb; A st; int ar[3]; (void)st;\n%s\n} };" % (call % arg), [(1, "captured local variable by reference might go out of scope before lambda is called")] * cnt))
        for cap in ("&i", "&", "&i, &p"):
            for c in ("auto l = [%s] { (void)i; }; connect(a, &C::sig, l);", "connect(a, &C::sig, wrap([%s] { (void)i; }));", "wrap([%s] { (void)i; });", "[%s] { (void)i; }();", "QTimer::singleShot(0, this, [%s] { (void)i; });", "disconnect(a, &C::sig, nullptr, nullptr); auto l = [%s] { (void)i; };"):
                cases.append(("struct S@ : B { void f(C *a, int pi) { int i = 0; int *p = nullptr; (void)p;\n%s\n} };" % (c % cap), []))
        judge(qt, "lambda-in-connect", cases)
    ck.cov.update({"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["states"], "exhaustive": True})
    ck.sample(cases[100][0])
    ck.finish()


if __name__ == "__main__":
    main()
