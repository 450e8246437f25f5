"""Small translation units (against the mock Qt headers) which have findings of many checks, and variants of them with other meanings for
the same names."""
import json, os, re
import mockqt
from drv import clazy_args

HDR = '#pragma once\nbool hh1 = getenv("A");\nbool hh2 = getenv("A"); // clazy:exclude=raw-environment-function\nstruct HH { ~HH() { delete p; } int *p; };\n'
Q = '#include <QObject>\n#include <QList>\n'
A_ = '''#include "h.h"
bool a1 = getenv("A"); const char *a2 = "x";
struct P1 { int a[100]; }; int k1(const P1 s) { return s.a[0]; }
struct P2 { int a; }; int k2(const P2 &s) { return s.a; }
struct R1 { ~R1() { delete p; } int *p; };
struct V1 { V1() { h(); } virtual ~V1(); void h() { g(); } virtual void g() = 0; };
struct V2 { V2() { h(); } virtual ~V2(); void h() { g(); } virtual void g(); };
#ifndef ZMACRO1
#define ZMACRO2
#endif
struct O1 : QObject { Q_OBJECT
public: O1(QObject *p = nullptr);
signals: int s1(); void s2() const;
public slots: void t1() const; int t2() const;
public: void u() { s1(); emit t1(); QObject::connect(this, SIGNAL(s1( int )), this, SLOT(t1())); }
Q_PRIVATE_SLOT(d, void t3()) void w1() { connect(this, SIGNAL(s1()), this, SLOT(t3())); connect(this, &O1::t1, this, &O1::s2); } };
void l1(QList<QString> l) { QList<int> r; for (int i = 0; i < 10; ++i) r.append(i); foreach (QString s, l) { } QString z; z.left(0); }
void l2() { qgetenv("A").isEmpty(); QMap<char *, int> m; QString s = QString("").arg(1).arg(2); QStringList x; for (QString &y : x) { } }
struct I1 { int f() const; }; void u1(I1 &s) { s.f(); } void v1(); void v2() { return v1(); }
enum E1 { EA = 1, EB = 2, EC = 4, ED = 9 }; QString st1; namespace { QString st2; } static const QLatin1String st3("x");
'''
# the same names at the same lines, with the opposite properties
B_ = '''#include "h.h"
bool a1 = nullptr == "A"; constexpr auto a2 = 1;
struct P1 { int a; }; int k1(const P1 s) { return s.a; } int dummy(const char *, int = 1, int = 2);
struct P2 { int a[100]; }; int k2(const P2 &s) { return s.a[0]; }
struct R1 { int *p; R1(const R1 &); R1 &operator=(const R1 &); ~R1() { delete p; } };
struct V1 { V1() { h(); } virtual ~V1(); void h() { g(); } virtual void g(); };
struct V2 { V2() { h(); } virtual ~V2(); void h() { g(); } virtual void g() = 0; };
#ifndef ZMACRO1
#define ZMACRO1
#endif
struct O1 : QObject { Q_OBJECT
public: O1(QObject *p);
public slots: int s1(); void s2() const;
signals: void t1() const; int t2() const;
public: void u() { s1(); emit t1(); QObject::connect(this, SIGNAL(t1()), this, SLOT(s1())); }
void t3(); void w1() { connect(this, SIGNAL(t1()), this, SLOT(t3())); connect(this, &O1::t1, this, &O1::s2); } };
void l1(const QList<int> &l) { QList<int> r; r.reserve(10); for (int i = 0; i < 10; ++i) r.append(i); foreach (int s, l) { } }
void l2() { qgetenv("A"); QMap<int, int> m; QString s = QString("").arg(1); const QStringList x; for (const QString &y : x) { } }
struct I1 { int f(); }; void u1(I1 &s) { s.f(); } int v1(); int v2() { return v1(); }
enum E1 { EA = 1, EB = 2, EC = 3, ED = 9 }; int st1; namespace { int st2; } static const int st3 = 1;
'''
# several findings of several checks in macros
M_ = '''#include "h.h"
#define BOTH(n) bool b##n = getenv("A"); struct R##n { ~R##n() { delete p; } int *p; };
#define NEST BOTH(3) BOTH(4)
#define CALLS(s) (void)getenv("B"); s.left(0); (void)QString().arg(1).arg(2);
#define ARG(x) x
#define CLS(n) struct V##n { V##n() { g(); } virtual ~V##n(); virtual void g() = 0; };
#define TWO(x) x; x;
BOTH(1) BOTH(2) bool b5 = getenv("C"); BOTH(6)
NEST
CLS(1) CLS(2) ARG(CLS(3)) ARG(BOTH(7))
void mc(QString z) { CALLS(z) CALLS(z) { CALLS(QString()) } ARG((void)getenv("D");) TWO((void)getenv("E")) ARG(CALLS(z)) z.left(0); ARG(z.left(0)); TWO(z.left(0)) }
template<class T> void mt(T z) { CALLS(QString()) TWO((void)getenv("F")) ARG(QString().left(0)); } void mu() { mt(1); mt('a'); }
'''


def variants(src):
    """The same names with other meanings: [(name, source)]. They need not compile: only what they leave behind counts."""
    v = [("nobase", re.sub(r"\b(class|struct)(\s+\w+)\s*(?:final\s*)?:[^{;:]*\{", r"\1\2 {", src)),
         ("base", re.sub(r"\b(class|struct)(\s+(?!QObject\b)\w+)\s*\{", r"\1\2 : public QObject { Q_OBJECT ", src)),
         ("noconst", re.sub(r"\bvirtual\b|\bconst\b|\bexplicit\b", "", src)),
         ("swap", re.sub(r"\b(signals|Q_SIGNALS|public\s+slots|public\s+Q_SLOTS|protected\s+slots|private\s+slots)\s*:", lambda m: "public slots:" if "ignals" in m.group(1) or "IGNALS" in m.group(1) else "signals:", src)),
         ("types", re.sub(r"\bint\b|\bQString\b", lambda m: "QString" if m.group() == "int" else "int", src)),
         ("values", re.sub(r"(?<=[ =(,])\d+\b(?!\.)", lambda m: str(int(m.group(), 8 if m.group().startswith("0") and m.group().strip("01234567") == "" else 10) + 3) if not (m.group().startswith("0") and len(m.group()) > 1) else m.group(), src))]
    return [(n, t) for n, t in v if t != src]


def units(checks):
    """name -> (source, clang args, plugin args)"""
    every = ("," .join(checks),)
    u = {
        "A": (Q + A_, [], every),
        "B": (Q + B_, [], every),
        "skip": (Q + "// clazy:skip\n" + A_, [], every),
        "excl": (Q + A_.replace("\n", " // NOLINT\n", 3) + "// clazy:excludeall=rule-of-three,virtual-call-ctor,global-const-char-pointer\n", [], every),
        "error": (Q + "int broken = nosuch;\nstruct Inc;\nInc inc; class O1 : Nope { }\n" + A_, [], every),
        "fatal": ('#include <nosuchfile>\n' + Q + A_, [], every),
        "empty": ("", [], every),
        "lvl0": (Q + A_, [], ("level0",)),
        "onlyqt": (Q + A_, [], every + ("only-qt",)),
        "onlyqtQ": (Q + A_, ["-DQT_CORE_LIB"], every + ("only-qt",)),
        "ignincl": (Q + A_, [], every + ("ignore-included-files",)),
        "werror": (Q + A_, ["-Werror"], every),
        "noemit": (Q.replace("#inc", "#define QT_NO_KEYWORDS\n#define QT_NO_CAST_FROM_ASCII\n#inc", 1) + A_, [], every + ("qt-developer",)),
        "ns": ("#define QT_NAMESPACE MyQt\n" + Q + A_, [], every + ("visit-implicit-code",)),
    }
    for n, t in variants(A_):
        u["A-" + n] = (Q + t, [], every)
    u["B-nobase"] = (Q + dict(variants(B_))["nobase"], [], every)
    return u


def tu(name_src, args=(), plugin=()):
    f = {"/v/x.cpp": name_src, "/v/h.h": HDR}
    f.update(mockqt.files())
    return {"args": mockqt.ARGS + list(args) + clazy_args(*plugin), "main": "/v/x.cpp", "files": f}
