"""C28: the QString literal checks on every literal, call, chain of calls and expression position up to a bound, with the real Qt 5 and
Qt 6 headers, against a reference built from the text of the checks' documentation."""
import itertools
import vbuild, batch, corpus, positions
from drv import Pool
from report import Check

PRO = '''#include <QtCore/QString>
#include <QtCore/QStringList>
#include <QtCore/QByteArray>
#include "pre.h"
template<class T> char *cv(T &&);
extern QString s, nm, q, q1, q2, name; extern QString *ps; extern QStringList sl; QString fun(); QString fun(const QString &); struct H { QString m; QString g() const; H *n; QString *p; H &self(); }; extern H h; extern H *ph;
extern int i, w, width, fieldWidth, m_labelWidth, base, theBase, other; extern long long ll; extern unsigned long long ull; extern long lo; extern unsigned long ul; extern unsigned u; extern short sh; extern unsigned short us; extern double d; extern QChar c; extern char ch; extern const char *cs; extern bool cond; extern QByteArray ba; extern QLatin1String l1, lw; extern Qt::CaseSensitivity cse;
#define MAC(x) x
#define LEFT1 s.left(1)
#define LOW s.toLower()
'''
NA, EM, LE, AR, IN = "qlatin1string-non-ascii", "empty-qstringliteral", "qstring-left", "qstring-arg", "qstring-insensitive-allocation"
L0, L1 = "QString::left(0) returns an empty string", "Use QString::at(0) instead of QString::left(1) to avoid temporary allocations (just be sure the string isn't empty)."
NAM, EMM, INM = "QLatin1String with non-ascii literal", "Use QLatin1String(\"\") or QString() instead of an empty QStringLiteral", "unneeded allocation"


def main():
    ck = Check("C28", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    pre = "\n".join(x for x in positions.PRE.replace("char *getenv(const char *);", "").split("\n") if not x.startswith("namespace std"))
    states = trans = 0

    def run(check, cases, want, label, per=150, qts=(5, 6), pool=pool):
        """want: per case {qt: list of (line, message)} or a list for both; columns when given as triples"""
        nonlocal states, trans
        for qt in qts:
            n = 0
            res = batch.run(pool, corpus.flags(qt, "c++20"), PRO, cases, check, per=per, files={"/v/pre.h": pre})
            for code, w, r in zip(cases, want, res):
                states += 1
                w = w[qt] if isinstance(w, dict) else w
                if w is None:
                    continue
                if isinstance(r, dict):
                    ck.violate("%s qt%d %s" % (label, qt, code), r)
                    continue
                n += 1
                trans += len(r)
                got = [(x[0], x[2]) for x in r]
                if callable(w):
                    e = w(r)
                    if e:
                        ck.violate("%s qt%d %s" % (label, qt, code), e)
                elif sorted(got) != sorted(w):
                    ck.violate("%s qt%d %s" % (label, qt, code), {"want": w, "got": got})
            ck.cov["%s qt%d" % (label, qt)] = n

    # ---- every position and wrapper
    units = [(NA, 'QLatin1String("\u00e9")', NAM), (EM, 'QStringLiteral("")', EMM), (LE, "s.left(0)", L0), (LE, "s.left(1)", L1), (AR, "s.arg(nm).arg(q)", "Use multi-arg instead"), (IN, 's.toLower().contains(nm)', INM)]
    for check, e, msg in units:
        cases = []
        for p in positions.P:
            cases.append((p, "cv(%s)" % e))
        for x in positions.W:
            cases.append(("void f@() { #; }", x.replace("#", "cv(%s)" % e)))
        for n, p in enumerate(("void f@() { #; }", "auto f@() { return #; }", "void f@() { auto x = #; }", "void f@() { const auto &x = #; }", "void f@() { (#); }", "void f@() { MAC(#); }", "void f@() { (void)#; }", "void f@() { use((#)); }", "void f@() { use(cond ? # : #); }", "void f@() { auto x{#}; }", "struct S@ { decltype(#) m = #; };", "auto v@ = #;", "static auto v@ = #;", "void f@() { new auto(#); }", "void f@() { throw #; }", "void f@() { for (auto x : {#, #}) ; }", "void f@() { [x = #] { }; }", "void f@() { auto l = [] { return #; }; }", "template<class T> auto f@(T) { return #; }", "template<class T> auto f@(T) { return #; } void g@() { f@(1); f@('a'); }")):
            cases.append((p, e))
        codes, want = [], []
        for k, (p, x) in enumerate(cases):
            code = p.replace("@", str(k)).replace("#", x)
            codes.append("namespace n%d { %s }" % (k, code))
            cnt = code.count(e) if "MAC(" not in code or True else 1
            def chk(r, msg=msg, cnt=cnt, code=code):
                got = {(y[1], y[2]) for y in r}
                if {m for _, m in got} - {msg}:
                    return {"messages": [m for _, m in got]}
                if "L(" in e and check == EM:
                    pass
                if len(got) != cnt:
                    return {"places": sorted(got), "want": cnt}
            want.append(chk)
        run(check, codes, want, "positions " + e)
    # ---- literals
    alphabet = ["a", "\\x7f", "\\x80", "\u00e9", "\\xff", "%1", " "] if not T else ["a", "\\x7f", "\\x80", "\u00e9", "\\xff", "\\n", "%1", " ", "\\x01", "\u20ac", "\U0001d11e", "\\303"]
    lits = [""] + ["".join(x) for n in (1, 2, 3) for x in itertools.product(alphabet, repeat=n)]
    ascii_ = lambda x: not any(k in x for k in ("\\x80", "\u00e9", "\\xff", "\u20ac", "\U0001d11e", "\\303"))
    codes, want = [], []
    for n, x in enumerate(lits):
        q = '"' + x.replace("\\x7fa", '\\x7f""a').replace("\\x80a", '\\x80""a').replace("\\xffa", '\\xff""a') + '"'
        q = q.replace("\\x01a", '\\x01""a')
        for form in ("QLatin1String v(%s);", "use(QLatin1String(%s));", "QLatin1String v{%s};", "QString v = QLatin1String(%s);", "new QLatin1String(%s);", "static_cast<QLatin1String>(%s);", "(QLatin1String)%s;", "QLatin1String v = QLatin1String(%s);", "QLatin1String v[] = {QLatin1String(%s), QLatin1String(l1)};", "QLatin1String v((%s));", "s == QLatin1String(%s);", "QLatin1String v(%s, 1);", "use(QLatin1String(MAC(%s)));") if len(x) < 5 or n % 7 == 0 else ("QLatin1String v(%s);",):
            codes.append("namespace a%d { void f() { %s } }" % (len(codes), form % q))
            want.append([] if ascii_(x) else [(0, NAM)])
        for form in ("QString v(%s);", "QString v = QString::fromLatin1(%s);", "QByteArray v(%s);", "s.contains(QString::fromUtf8(%s));", "QLatin1String v(cs); use(%s);", "QLatin1String v(QByteArray(%s).constData());", "QLatin1String v(strchr(%s, 1));", "QLatin1String v(l1);", "QLatin1String v; use(%s);", "QLatin1String v(cond ? cs : ba.constData()); use(%s);"):
            if len(x) < 5:
                codes.append("namespace a%d { void f() { %s } }" % (len(codes), form % q if "%s" in form else form))
                want.append([])
    run(NA, codes, want, "literals", per=400)
    codes, want = [], []
    for n, x in enumerate(lits):
        q = '"' + x.replace("\\x7fa", '\\x7f""a').replace("\\x80a", '\\x80""a').replace("\\xffa", '\\xff""a') + '"'
        if not ascii_(x) and ("\\" in x):
            continue
        for form in ("QString v = QStringLiteral(%s);", "use(QStringLiteral(%s));", "QString v(%s); QString k = QString::fromLatin1(%s);", "s == QLatin1String(%s);", "QString v = QString() + QStringLiteral(%s) + QString(\"\");", "auto v = QByteArrayLiteral(%s);", "QString v = QStringLiteral(%s \"\");", "QString v = QStringLiteral(\"\" %s);"):
            codes.append("namespace a%d { void f() { %s } }" % (len(codes), form.replace("%s", q)))
            want.append([(0, EMM)] if x == "" and "QStringLiteral" in form else [])
    codes.append("void a() { use(QStringLiteral()); }"); want.append([(0, EMM)])
    codes.append("void a2() { use(QStringLiteral(), QStringLiteral(\"x\"), QStringLiteral(\"\")); }"); want.append([(0, EMM), (0, EMM)])
    codes.append("void a3() { use(QStringLiteral(u\"\")); }"); want.append([(0, EMM)])
    codes.append("void a4() { use(QStringLiteral(u\"x\")); }"); want.append([])
    run(EM, codes, want, "string literals", per=300)
    # ---- left
    codes, want = [], []
    objs = ("s", "(s)", "(*ps)", "fun()", "h.m", "h.g()", "h.n->m", "QString(cs)", "s.left(2)", "s.mid(1)", "(cond ? s : q)", "sl[0]", "sl.first()", "const_cast<const QString &>(s)", "static_cast<QString &>(s)", "s.trimmed()", "(s + q)", "h.self().self().m", "QString{}", "[] { return s; }()")
    args = {"0": L0, "1": L1, "00": L0, "0x1": L1, "0b0": L0, "01": L1, "0l": L0, "1u": L1, "0ull": L0, "(1)": L1, "((0))": L0, "2": None, "10": None, "100": None, "0 + 1": None, "i": None, "1 - 1": None, "s.size() - 1": None, "-1": None, "h.m.size()": None, "sizeof(char)": None, "256": None, "65536": None, "0x10000": None, "4294967296": None, "11": None, "'0'": None, "true": None, "cond": None, "cond ? 0 : 1": None, "int(0.5)": None}
    for o in objs:
        for a, m in args.items():
            codes.append("namespace a%d { auto f() { return %s.left(%s); } }" % (len(codes), o, a))
            want.append([(0, m)] if m else [])
            if o in ("s", "fun()", "h.m"):
                codes.append("namespace a%d { auto f() { return %s.right(%s); } }" % (len(codes), o, a))
                want.append([])
                codes.append("namespace a%d { auto f() { return %s.toUtf8().left(%s); } }" % (len(codes), o, a))
                want.append([])
                codes.append("namespace a%d { auto f() { return (&%s)->left(%s); } }" % (len(codes), o.replace("fun()", "s"), a))
                want.append([(0, m)] if m else [])
    codes += ["auto b1() { return ps->left(1); }", "auto b2() { return h.p->left(0); }", "auto b3() { return ps->QString::left(1); }", "struct b4 : QString { auto f() { return left(1); } };", "struct b5 : QString { auto left(int); }; auto b6(b5 v) { return v.QString::left(0); }", "struct b7 { QString left(int); }; auto b8(b7 v) { return v.left(0); }", "auto b10() { return LEFT1; }", "auto b11() { return s.left(1).left(0); }", "auto b12() { return s.left(1) + s.left(2) + s.left(0); }", "template<class T> auto b13(T) { return s.left(1); } void b14() { b13(1); }", "auto b15() { return s.mid(0, 1) + s.leftJustified(1); }"]
    want += [[(0, L1)], [(0, L0)], [(0, L1)], [(0, L1)], [(0, L0)], [], [(0, L1)], [(0, L1), (0, L0)], [(0, L1), (0, L0)], None, []]
    run(LE, codes, want, "left", per=400)
    # ---- toLower().contains()
    codes, want = [], []
    first = {"toLower()": 1, "toUpper()": 1, "trimmed()": 0, "simplified()": 0, "toCaseFolded()": 0, "toLower().trimmed()": 0, "trimmed().toLower()": 1, "toLower().toUpper()": 1, "left(1)": 0, "toLower().left(1)": 0, "toHtmlEscaped()": 0, "toUtf8()": 0, "toUpper().toUpper().toLower()": 1}
    second = {"contains(nm)": 1, "startsWith(nm)": 1, "endsWith(nm)": 1, "compare(nm)": 1, 'contains("a")': 1, 'startsWith(l1)': 1, "endsWith(c)": 1, "compare(l1)": 1, "indexOf(nm)": 0, "count(nm)": 0, "toLower()": 0, "lastIndexOf(c)": 0, "isEmpty()": 0, "startsWith(nm, Qt::CaseInsensitive)": 1, "contains(nm, cse)": 1, "size()": 0, "left(2)": 0, "localeAwareCompare(nm)": 0, "contains(fun(nm).toLower())": 1, "split(c)": 0, "replace(nm, q)": 0, "contains(nm) == true": 1, "split(c).contains(nm)": 0, "compare(nm) != 0": 1}
    for o in objs:
        for f, x in first.items():
            for g, y in second.items():
                if f == "toUtf8()" and ("nm" in g or "l1" in g or "(c" in g or g.startswith(("compare", "left", "isE", "size"))):
                    continue
                if o not in ("s", "fun()", "h.m") and not (x and y) and not T:
                    continue
                codes.append("namespace a%d { auto f() { return %s.%s.%s; } }" % (len(codes), o, f, g))
                want.append([(0, INM)] if x and y else [])
    for o in objs[:8]:
        for g, y in second.items():
            codes.append("namespace a%d { auto f() { return s.%s || fun(%s.toLower()).isEmpty(); } }" % (len(codes), g if y else "isEmpty()", o)); want.append([])
            codes.append("namespace a%d { auto f() { auto lo = %s.toLower(); return lo.%s; } }" % (len(codes), o, g)); want.append([])
    codes += ["auto b1() { return ps->toLower().contains(nm); }", "auto b2() { return (s.toLower()).contains(nm); }", "auto b3() { return LOW.contains(nm); }", "struct b4 : QString { auto f() { return toLower().contains(nm); } };", "auto b5() { return QString(s.toLower()).contains(nm); }", "struct Z { Z toLower(); bool contains(QString); }; auto b6() { return Z().toLower().contains(nm); }", "auto b7() { return s.contains(nm.toLower()); }", "auto b8() { return s.toLower() == nm; }", "auto b9() { return s.toLower().toUtf8().contains(\"x\"); }", "auto b10() { return ba.toLower().contains(\"x\"); }", "auto b11() { return s.toLower().contains(nm) && s.toUpper().startsWith(nm); }", "auto b12() { return h.m.toLower().contains(h.g().toUpper().left(1)); }"]
    want += [[(0, INM)], [(0, INM)], [(0, INM)], [(0, INM)], None, [], [], [], [], [], [(0, INM)] * 2, [(0, INM)]]
    run(IN, codes, want, "insensitive", per=400)
    # ---- chains of arg
    calls = [("arg(q)", 1), ("arg(q, q1)", 2), ("arg(i)", 0), ("arg(q, -3)", 0), ("arg(q1, q2, nm)", 3), ("arg(c)", 0), ('arg("x")', 1), ("trimmed()", 0), ("arg(s.trimmed())", 1)]
    longc = [("arg(q, q1, q2, nm)", 4), ("arg(q, q1, q2, nm, q)", 5), ("arg(q, q1, q2, nm, q, q1, q2, nm)", 8), ("arg(q, q1, q2, nm, q, q1, q2, nm, q)", 9), ("arg(q)", 1), ("arg(i)", 0)]
    seqs = [x for n in range(1, 5 if T else 4) for x in itertools.product(calls, repeat=n)] + [x for n in range(1, 5) for x in itertools.product(longc, repeat=n)] + [(("arg(q)", 1),) * n for n in range(1, 13)] + [(("arg(q)", 1),) * n + (("arg(i)", 0),) + (("arg(q1)", 1),) * m for n in range(8, 12) for m in (1, 2, 9, 10)]
    codes, want = [], []
    for o in ("s", "fun()", "QString(\"%1\")", "ps->left(3)") if T else ("s", "fun()"):
        for sq in seqs:
            code = "namespace a%d { auto f() { return %s.%s; } }" % (len(codes), o, ".".join(x[0] for x in sq))
            runs = []
            for z, grp in itertools.groupby(sq, lambda x: x[1] > 0):
                grp = list(grp)
                if z and len(grp) > 1 and sum(x[1] for x in grp) <= 9:
                    runs.append("arg(" + ", ".join(x[0][4:-1] for x in grp) + ")")
            def chk(r, code=code, runs=runs):
                if [x[2] for x in r] != ["Use multi-arg instead"] * len(runs):
                    return {"got": [x[2] for x in r], "want": runs}
                fx = sorted(f["text"] for x in r for f in x[3] or [])
                if fx != sorted(runs):
                    return {"edits": fx, "want": runs}
            codes.append(code)
            want.append(chk)
    run(AR, codes, want, "arg chains", per=400)
    codes = ["auto b1() { return ps->arg(q).arg(q1); }", "auto b2() { return s.arg(q.arg(q1)).arg(q2); }", "auto b3() { return s.arg(s.arg(q).arg(q1)).arg(q2); }", "auto b4() { auto x = s.arg(q); return x.arg(q); }", "auto b5() { return (s.arg(q)).arg(q1); }", "auto b6() { return s.arg(q).arg(q1) + s.arg(q).arg(q1); }", "struct b7 : QString { auto f() { return arg(q).arg(q1); } };", "auto b8() { return QString(s.arg(q)).arg(q1); }", "struct Z { Z arg(QString, int = 0); }; auto b9() { return Z().arg(q).arg(q1); }", "template<class T> auto b10(T) { return s.arg(q).arg(q1); } void b11() { b10(1); b10('a'); }"]
    want = [[(0, "Use multi-arg instead")]] * 2 + [[(0, "Use multi-arg instead")] * 2] + [[], [(0, "Use multi-arg instead")], [(0, "Use multi-arg instead")] * 2, [(0, "Use multi-arg instead")], None, [], None]
    run(AR, codes, want, "arg", per=400)
    # ---- arg(value, fill...)
    A = {"i": 4, "1": 4, "ll": 4, "ull": 4, "lo": 4, "ul": 4, "u": 4, "sh": 4, "us": 4, "d": 5, "ch": 3, "c": 3, "q": 3, "'x'": 3}
    second = {"2": 0, "w": 1, "width": 0, "fieldWidth": 0, "m_labelWidth": 0, "other": 1, "(w)": 1, "w + 1": 0, "-5": 0, "-w": 1, "h.m.size()": 1, "w + other": 1, "WIDTHLESS": None}
    third = {"10": 0, "base": 0, "theBase": 0, "other": 1, "other + 1": 0, "8 + 8": 0}
    codes, want = [], []
    FM = "Using QString::arg() with fillChar overload"
    for a, n in A.items():
        rows = [((a,), 0)]
        for x, v in second.items():
            if v is None:
                continue
            rows.append(((a, x), v))
            if n == 3:
                rows += [((a, x, "c"), v), ((a, x, "QLatin1Char('0')"), v)]
            if n == 4:
                rows += [((a, x, y), v and w) for y, w in third.items()] + [((a, x, y, z), v and w) for y, w in third.items() for z in ("c", "QLatin1Char('0')")]
            if n == 5:
                rows += [((a, x, y), v) for y in ("'f'", "ch")] + [((a, x, "'f'", y), v) for y in ("2", "other")] + [((a, x, "'f'", "2", "c"), v)]
        for r, v in rows:
            for o in ("s", "fun().trimmed()") if T else ("s",):
                codes.append("namespace a%d { auto f() { return %s.arg(%s); } }" % (len(codes), o, ", ".join(r)))
                want.append([(0, FM)] if v else [])
    run(AR, codes, want, "arg fill", per=400, pool=Pool(b, env={"CLAZY_EXTRA_OPTIONS": "qstring-arg-fillChar-overloads"}))
    run(AR, codes, [[]] * len(codes), "arg fill off", per=400)
    # ---- QLatin1String::arg
    codes, want = [], []
    LM = "Argument passed to QLatin1String::arg() will be implicitly cast to QChar"
    for a, v in {"i": 1, "1": 1, "u": 1, "sh": 1, "us": 1, "s.size()": 1, "QChar(i)": 0, "c": 0, "q": 0, "l1": 0, "'x'": 0, "q, q1": 0, "i + 1": 1, "(i)": 1, "cond ? 1 : 2": 1, "QString::number(i)": 0, "h.m": 0}.items():
        for o in ("l1", 'QLatin1String("%1")', "(l1)", "(cond ? l1 : lw)"):
            codes.append("namespace a%d { auto f() { return %s.arg(%s); } }" % (len(codes), o, a))
            want.append([(0, LM)] if v else [])
            codes.append("namespace a%d { auto f() { return QString(%s).arg(%s); } }" % (len(codes), o, a))
            want.append([])
    run(AR, codes, want, "latin1 arg", per=400, qts=(5,))
    ck.cov.update({"states": states, "transitions": trans, "traces_validated_against_impl": states, "exhaustive": True})
    ck.finish()


if __name__ == "__main__":
    main()
