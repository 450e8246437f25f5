"""C19: checks over class hierarchies. Every chain of classes up to a length with every combination of declarations, against a model of
overriding, overloading and qualified calls."""
import itertools
import vbuild, batch, mockqt
from drv import Pool
from report import Check

ARGS = mockqt.ARGS + ["-std=c++17", "-w", "-ferror-limit=0", "-fno-access-control"]
PRO = '#include "pro.h"\n'
PROH = '''#include <qtmock.h>
namespace N { enum E {}; using Al = int; typedef E AlE; class Fwd; template<class T> struct Box {}; }
struct Plain {}; struct Iface { virtual void m(int); virtual void m(N::E); virtual ~Iface(); }; struct Iface2 : Iface {};
'''
# spelled parameter list -> signature
SIG = {"int": "i", "Al": "i", "const int": "i", "N::Al a": "i", "long": "l", "": "", "E": "e", "N::E": "e", "AlE": "e", "::N::E x": "e", "enum E": "e", "const E &": "re", "const N::AlE &": "re", "E &": "mre", "int, int": "ii", "int, Al": "ii", "Fwd *": "pf", "class N::Fwd *p": "pf", "QString": "s", "::QString": "s", "const QString &": "rs",
       "QList<int>": "L", "QList<N::Al>": "L", "QList<long>": "Ll", "Box<E> *": "B", "N::Box<N::E> *": "B"}
SECT = {"plain": "public:", "signal": "signals:", "slot": "public slots:", "inv": "public: Q_INVOKABLE", "qsignal": "public: Q_SIGNAL", "psignal": "Q_SIGNALS:"}


def sig(k):
    return k.endswith("signal")


class Chain:
    def __init__(self, decls, bases=None, style=0):
        """decls: per class a list of (kind, params, prefix)"""
        self.decls, self.bases, self.style = decls, bases or ["QObject"] + [None] * (len(decls) - 1), style

    def source(self, n):
        L = ["namespace N { " + ("".join("class K%d_%d; " % (n, i) for i in range(len(self.decls))) if self.style & 1 else "")]
        self.line = {}
        for i, ds in enumerate(self.decls):
            b = self.bases[i] or "K%d_%d" % (n, i - 1)
            L.append("class K%d_%d : public %s { Q_OBJECT" % (n, i, b.replace(", ", ", public ")))
            for j, (k, p, pre) in enumerate(ds):
                self.line[i, j] = len(L)
                L.append("%s %s void m(%s)%s;" % (SECT[k], pre, p, ""))
            L.append("}; " + ("class K%d_%d;" % (n, i) if self.style & 2 else ""))
        L.append("}")
        return "\n".join(L)

    def overridden(self):
        out = []
        for i, ds in enumerate(self.decls):
            for j, (k, p, _) in enumerate(ds):
                for b in range(i - 1, -1, -1):
                    hit = [k2 for k2, p2, _ in self.decls[b] if SIG[p2] == SIG[p] and (sig(k) or sig(k2))]
                    if hit:
                        w = lambda x: "signal" if sig(x) else "non-signal"
                        out.append((self.line[i, j], "Overriding %s with %s: N::K@_%d::m" % (w(hit[0]), w(k), i)))
                        break
        return out

    def overloaded(self):
        out = []
        for i, ds in enumerate(self.decls):
            for j, (k, p, _) in enumerate(ds):
                if not sig(k):
                    continue
                for b in range(i, -1, -1):
                    if any(SIG[p2] != SIG[p] for _, p2, _ in self.decls[b]):
                        out.append((self.line[i, j], "signal m is overloaded" + ("" if b == i else " (with @%d)" % b)))
        return out


def main():
    ck = Check("C19", "model_checking")
    pool = Pool(vbuild.build())
    T = ck.thorough()
    files = dict(mockqt.files(), **{"/v/pro.h": PROH})
    n = nw = 0

    def judge(check, srcs, wants, key):
        nonlocal n, nw
        for src, w, g in zip(srcs, wants, batch.run(pool, ARGS, PRO, srcs, check, per=300, files=files)):
            n += 1
            if isinstance(g, dict):
                ck.violate("%s: %s" % (check, src[:300]), g)
                continue
            o = sorted(key(x, src) for x in g)
            w = sorted(set(w))
            nw += len(o)
            if o != w:
                ck.violate("%s: %s" % (check, " ".join(src.split())[:300]), {"source": src, "expected": w, "reported": o})
    chains = []
    D = [[], [("plain", "int", "")], [("signal", "int", "")], [("slot", "int", "")], [("signal", "long", "")], [("plain", "Al", "")], [("qsignal", "const int", "")], [("inv", "", "")], [("slot", "N::Al a", "virtual")], [("signal", "int", ""), ("signal", "long", "")]]
    for k in (1, 2, 3, 4):
        for ds in itertools.product(D if k < 4 or T else D[:6], repeat=k):
            for st in ((0, 1, 3) if k < 3 or T else (0,)):
                chains.append(Chain(list(ds), style=st))
    # every pair of spellings, in one class and in two
    for (p1, p2), (k1, k2) in itertools.product(itertools.product(SIG, repeat=2), itertools.product(("signal", "plain", "psignal", "slot"), repeat=2)):
        chains.append(Chain([[(k1, p1, "")], [(k2, p2, "")]]))
        if SIG[p1] != SIG[p2]:
            chains.append(Chain([[(k1, p1, ""), (k2, p2, "")]]))
            chains.append(Chain([[(k1, p1, "")], [], [(k2, p2, ""), (k1, p1, "")]]))
    for bs in (["QObject, Plain", None, None], ["Plain, QObject", None, None], ["QObject", "Plain, K%d_0", None], ["QObject", None, "Plain, K%d_1"], ["QObject", "K%d_0, Plain", "K%d_1, Plain"]):
        for ds in itertools.product(D[:6], repeat=3):
            c = Chain(list(ds), bs)
            chains.append(c)
    srcs = []
    for i, c in enumerate(chains):
        c.bases = [b % i if b and "%d" in b else b for b in c.bases]
        srcs.append(c.source(i))
    loc = lambda m: m
    judge("overridden-signal", srcs, [[(l, m.replace("@", str(i))) for l, m in c.overridden()] for i, c in enumerate(chains)], lambda x, s: (x[0], x[2]))
    # the message names the place of the base class; of that only the class is compared here
    import re

    def okey(x, s):
        m = re.match(r"signal m is overloaded( \(with /v/x.cpp:(\d+):\d+\))?$", x[2])
        return (x[0], "signal m is overloaded" + (" (with base)" if m and m.group(1) else "") if m else x[2])
    ow = []
    for c in chains:
        ow.append([(l, re.sub(r"@\d+", "base", m)) for l, m in c.overloaded()])
    # several bases yield several warnings with different places: compared as a set
    for i, w in enumerate(ow):
        ow[i] = w
    res = batch.run(pool, ARGS, PRO, srcs, "overloaded-signal", per=300, files=files)
    for src, c, g in zip(srcs, chains, res):
        n += 1
        if isinstance(g, dict):
            ck.violate("overloaded-signal: " + src[:300], g)
            continue
        heads = {i: l for l, t in enumerate(src.split("\n")) for i in range(len(c.decls)) if re.match(r"class K\d+_%d :" % i, t)}
        w = c.overloaded()
        o = [(x[0], x[2]) for x in g]
        nw += len(o)
        # absolute lines of the bases relative to the warning's own line
        rel = sorted(set((l, re.sub(r" \(with /v/x.cpp:\d+:\d+\)", " (base)", m)) for l, m in o))
        wr = sorted(set((l, re.sub(r" \(with @\d+\)", " (base)", m)) for l, m in w))
        cnt = lambda s_: len([1 for _, m in s_ if "(with" in m])
        if rel != wr or cnt(o) != cnt(w) or len([1 for _, m in o if "(with" not in m]) != len([1 for _, m in w if "(with" not in m]):
            ck.violate("overloaded-signal: " + " ".join(src.split())[:300], {"source": src, "expected": w, "reported": o})
    # virtual-signal
    vs, vw = [], []
    for bases, pre, kinds, par in itertools.product((["QObject"], ["QObject", None], ["QObject, Iface"], ["Iface, QObject"], ["QObject", "K%d_0, Iface"], ["QObject, Plain", None], ["QObject, Iface2"], ["QObject", None, None]), itertools.product(("", "virtual"), repeat=3), itertools.product(("signal", "plain", "slot", "qsignal"), repeat=3), ("int", "E", "long")):
        k = len(bases)
        if any(x != "" for x in pre[k:]) or any(x != "signal" for x in kinds[k:]):
            continue
        c = Chain([[(kinds[i], par, pre[i])] for i in range(k)], [b % len(vs) if b and "%d" in b else b for b in bases])
        src = c.source(len(vs))
        w, virt = [], False
        iface = False
        for i in range(k):
            here = bool(bases[i]) and "Iface" in bases[i] and par != "long"
            was = virt
            virt = virt or pre[i] == "virtual" or here
            if sig(kinds[i]) and virt and not here:
                w.append((c.line[i, 0], "signal is virtual"))
        vs.append(src)
        vw.append(w)
    judge("virtual-signal", vs, vw, lambda x, s: (x[0], x[2]))
    # skipped-base-method
    F = ["", "void m();", "virtual void m();", "virtual void m() = 0;", "void m(int);", "void m() {}", "void m(); void m(int);", "void n();"]
    ss, sw = [], []

    def skipped(forms, style, bases, callf):
        k = len(forms)
        nn = len(ss)
        L = [("".join("struct S%d_%d; " % (nn, i) for i in range(k + 1))) if style & 1 else "", "namespace Q%d {" % nn if style & 2 else ""]
        w = []
        for i in range(k + 1):
            b = "" if i == 0 else " : " + bases % ("S%d_%d" % (nn, i - 1))
            L.append("struct S%d_%d%s { %s" % (nn, i, b, forms[i] if i < k else ""))
            for j in range(i):
                near = [x for x in range(j, -1, -1) if "m(" in forms[x]]
                if not near or "m()" not in forms[near[0]]:
                    continue
                L.append("void c%d() { %s }" % (j, callf.replace("#", "S%d_%d::m()" % (nn, j))))
                if callf.startswith("Q:"):
                    raise ValueError
                if "this2" not in callf:
                    for x in range(near[0] + 1, i):
                        if "m()" in forms[x] and "= 0" not in forms[x]:
                            w.append((len(L) - 1, "Maybe you meant to call S%d_%d::m() instead" % (nn, x)))
            L.append("};" + (" struct S%d_%d;" % (nn, i) if style & 1 else ""))
        if style & 2:
            L.append("}")
        ss.append("\n".join(L))
        sw.append(w)
    for k in (1, 2, 3, 4):
        for forms in itertools.product(F if k < 4 or T else F[:5], repeat=k):
            skipped(forms, 0, "%s", "#;")
            if k < 4:
                skipped(forms, 3 if k == 3 else 1, "%s", "#;")
    for forms in itertools.product(F[:5], repeat=3):
        for b in ("public %s, Plain", "Plain, public %s", "protected %s", "virtual public %s", "Plain, private %s"):
            skipped(forms, 0, b, "#;")
            skipped(forms, 2, b, "#;")
        for cf in ("this->#;", "if (true) #;", "[this] { #; };", "int x = (#, 1);", "return #;", "for (;;) #;", "struct L { void f() { } }; #;", "auto self = this; self->#; int this2;", "(*this).#; int this2;", "S%d_0 *p = nullptr; int this2;" % 0 if False else "{{#;}}"):
            skipped(forms, 0, "%s", cf)
    judge("skipped-base-method", ss, sw, lambda x, s: (x[0], x[2]))
    ck.cov.update({"states": n, "transitions": nw, "traces_validated_against_impl": n, "exhaustive": True})
    ck.sample(srcs[1234])
    ck.sample(ss[1234])
    ck.finish()


if __name__ == "__main__":
    main()
