"""C25: fully-qualified-moc-types on every type built from a set of names, templates and modifiers up to a depth, in every position moc
looks at; the generator knows the full name of everything it writes. Edits are applied and analysed again."""
import itertools, os, re, subprocess, tempfile
import vbuild, batch, corpus
from drv import Pool, clazy_args, clazy_diags
from report import Check

CHECK = "fully-qualified-moc-types"
MOC = {5: "/usr/lib/qt5/bin/moc", 6: "/usr/lib/qt6/libexec/moc"}
PRO = '''#include <QtCore/QObject>
#include <QtCore/QString>
#include <QtCore/QStringList>
#include <QtCore/QList>
#include <QtCore/QMap>
#include <QtCore/QSharedPointer>
#include <memory>
#include <utility>
#include <bitset>
'''
TYPES = '''struct Gl { }; enum GE { GE1 }; template<class T> struct GT { T *t; }; using GAl = QList<int>; namespace NS { struct Ty; } using GPt = NS::Ty *; namespace TM { struct Z { }; }
namespace NS { struct Ty { }; struct X { }; enum En { En1 }; enum class Ec { Ec1 }; union Un { int a; }; class Fwd; namespace In { struct Dp { }; enum F { F1 }; } struct Ou { struct Ne { }; enum K { K1 }; using Al = QList<int>; }; using Al = QList<QString>; typedef Ty Td; template<class T> struct Tm { T *t; }; template<class T, int N> struct Tn { T *t; };
 inline namespace Il { } }
'''
# full name: how it can be written in a class C of namespace NS
NAMES = {"int": ["int"], "bool": ["bool"], "QString": ["QString"], "Gl": ["Gl"], "GE": ["GE"], "GAl": ["GAl"], "GPt": ["GPt"], "QStringList": ["QStringList"], "TM::Z": ["TM::Z"], "NS::Ty": ["NS::Ty", "Ty"], "NS::X": ["NS::X", "X"], "NS::En": ["NS::En", "En"], "NS::Ec": ["NS::Ec", "Ec"], "NS::Un": ["NS::Un", "Un"], "NS::Fwd": ["NS::Fwd", "Fwd"], "NS::In::Dp": ["NS::In::Dp", "In::Dp"], "NS::In::F": ["NS::In::F", "In::F"], "NS::Ou::Ne": ["NS::Ou::Ne", "Ou::Ne"],
         "NS::Ou::K": ["NS::Ou::K", "Ou::K"], "NS::Ou::Al": ["NS::Ou::Al", "Ou::Al"], "NS::Al": ["NS::Al", "Al"], "NS::Td": ["NS::Td", "Td"], "NS::@::Ow": ["NS::@::Ow", "@::Ow", "Ow"], "NS::@::OE": ["NS::@::OE", "@::OE", "OE"], "NS::@::OA": ["NS::@::OA", "@::OA", "OA"], "QObject": ["QObject"], "Qt::Orientation": ["Qt::Orientation"], "Qt::Alignment": ["Qt::Alignment"], "QMap<int, QString>": None}
BUILTIN = ("int", "bool")
INCOMPLETE = ("NS::Fwd", "QObject")
LEAF = [(w, f) for f, ws in NAMES.items() if ws for w in ws]
SOME = [x for x in LEAF if x[1] in ("int", "QString", "Gl", "NS::Ty", "NS::En", "NS::In::Dp", "NS::Al", "NS::@::Ow")]
FEW = [x for x in LEAF if x[1] in ("int", "NS::Ty", "NS::@::Ow")]
TMPL = [("QList", "QList"), ("GT", "GT"), ("std::shared_ptr", "std::shared_ptr"), ("NS::Tm", "NS::Tm"), ("Tm", "NS::Tm"), ("QSharedPointer", "QSharedPointer")]
TMPL2 = [("QMap", "QMap"), ("std::pair", "std::pair")]
MODS = ["%s", "const %s", "%s &", "const %s &", "%s *", "const %s *", "%s&", "%s*", "const %s&", "const %s*", "%s **", "%s* *", "%s *const", "%s &&", "%s  &", "%s   *", "%s *&", "const %s *const", "%s const &", "%s const *", "%s const", "%s*const", "%s\n*", "const\n%s &", "volatile %s *"]


def trees(T):
    """(written, full name, kind) of unmodified types"""
    out = [(w, f, "builtin" if f in BUILTIN else "leaf") for w, f in LEAF]
    args = [(w, f) for w, f in (LEAF if T else SOME)]
    arg2 = args + [(w + p, f + q) for w, f in SOME for p, q in (("*", "*"), (" *", "*"), ("  * ", "*"))] + [("const " + w, "const " + f) for w, f in SOME] + [("const " + w + " *", "const " + f + "*") for w, f in SOME]
    for (t, tf), (a, af) in itertools.product(TMPL, arg2):
        if af.startswith("const ") and "shared_ptr" not in t.lower() and "*" not in af:
            continue
        out.append(("%s<%s>" % (t, a), "%s<%s>" % (tf, af), "t"))
    for (t, tf), (a, af), (b, bf) in itertools.product(TMPL2, args if T else FEW, FEW):
        out.append(("%s<%s, %s>" % (t, a, b), "%s<%s, %s>" % (tf, af, bf), "t"))
        if a == FEW[0][0] or T:
            out.append(("%s<%s,%s>" % (t, a, b), "%s<%s, %s>" % (tf, af, bf), "t"))
            out.append(("%s< %s ,  %s >" % (t, a, b), "%s<%s, %s>" % (tf, af, bf), "t"))
    for (t, tf), (u, uf), (a, af) in itertools.product(TMPL, TMPL, SOME if T else FEW):
        out.append(("%s<%s<%s>>" % (t, u, a), "%s<%s<%s>>" % (tf, uf, af), "t"))
        if t == "QList":
            out.append(("%s<%s<%s> >" % (t, u, a), "%s<%s<%s>>" % (tf, uf, af), "t"))
    for (t, tf), (a, af) in itertools.product([("NS::Tn", "NS::Tn"), ("Tn", "NS::Tn")], FEW):
        for n in ("3", "3 + 1", "sizeof(int)"):
            if n == "3":
                out.append(("%s<%s, %s>" % (t, a, n), "%s<%s, %s>" % (tf, af, n), "n"))
    return out


def squeeze(s):
    return re.sub(r"\s+", " ", re.sub(r"\s*([<>,*&])\s*", r"\1", s)).strip()


def main():
    ck = Check("C25", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    states = trans = 0
    base = trees(T)
    cases = []      # (declaration with types, [(type written, full, what)])
    POS = [("Q_SIGNALS: void f(%s);", "signal arguments", 1), ("Q_SIGNALS: void f(int, %s x);", "signal arguments", 1), ("public Q_SLOTS: void f(%s v);", "slot arguments", 1), ("Q_INVOKABLE void f(%s);", "invokable arguments", 1), ("private Q_SLOTS: %s f();", "slot return types", 2), ("Q_INVOKABLE %s f(int) const;", "invokable return types", 2), ("public: void f(%s); %s g();", None, 0), ("Q_SCRIPTABLE void f(%s);", None, 0), ("Q_INVOKABLE virtual %s f() const = 0;", "invokable return types", 2), ("Q_SIGNALS: void f(%s x = {});", "signal arguments", 1)]

    def add(w, f, mod, pos, kind):
        code, what, k = pos
        if k == 2 and (mod.endswith("const") and "*" not in mod):
            pass
        if "= {}" in code and ("&" in mod and "const" not in mod or "&&" in mod):
            return
        if f in INCOMPLETE and not ("*" in mod or "&" in mod):
            return
        t, ft = mod % w, mod % f
        n = "C%d" % len(cases)
        t, ft = t.replace("@", n), ft.replace("@", n)
        bad = what and kind != "builtin" and squeeze(w) != squeeze(f)
        cases.append((n, code.replace("%s", t), code.replace("%s", ft), what if bad else None))
    for w, f, kind in base:
        for p in POS if kind != "t" or T else POS[::2] + POS[5:6]:
            add(w, f, "%s", p, kind)
    sub = [x for x in base if x[2] != "t"] + [x for x in base if x[2] == "t"][::(3 if T else 17)]
    for w, f, kind in sub:
        for m in MODS:
            for p in (POS[0], POS[2], POS[3], POS[4], POS[5]) if T or len(w) < 7 else (POS[0], POS[5]):
                if kind == "t" and p[2] == 2 and m.endswith("&&"):
                    continue
                add(w, f, m, p, kind)
    wrap = lambda n, c: "namespace NS { class %s : public QObject { Q_OBJECT\npublic: struct Ow { }; enum OE { OE1 }; using OA = QList<int>;\n%s\n}; }\n" % (n, c)
    for qt in (5, 6):
        if qt == 5 and not T:
            use = cases[::3]
        else:
            use = cases
        codes = [wrap(c[0], c[1]) for c in use]
        res = batch.run(pool, corpus.flags(qt, "c++20"), PRO + TYPES, codes, CHECK, per=400)
        again = []
        for c, code, r in zip(use, codes, res):
            states += 1
            if isinstance(r, dict):
                ck.violate("qt%d %s" % (qt, c[1]), r)
                continue
            got = [x[2] for x in r]
            want = [c[3] + " need to be fully-qualified"] if c[3] else []
            trans += len(r)
            if got != want:
                ck.violate("qt%d %s" % (qt, c[1]), {"want": want, "got": got, })
            elif want:
                again.append((c, code, r))
        ck.cov["types qt%d" % qt] = len(use)
        # the edits: apply them
        fixed = []
        for c, code, r in again:
            fx = r[0][3] or []
            fixed.append(fx)
        # offsets are relative to the translation unit: run each 400 again to know where the cases begin
        out = apply(pool, corpus.flags(qt, "c++20"), [x[1] for x in again])
        for (c, code, r), new in zip(again, out):
            states += 1
            want = wrap(c[0], c[2])
            if new is None or squeeze(new) != squeeze(want):
                ck.violate("edit qt%d %s" % (qt, c[1]), {"want": c[2], "got": new and new.split("\n")[2]})
    # ---- properties of gadget types, with the code moc generates
    gadgets = '''struct GG { Q_GADGET public: bool operator==(const GG &) const; bool operator!=(const GG &) const; };\nenum GEn { GEn1 };\nnamespace NS { struct Gd { Q_GADGET public: bool operator==(const Gd &) const; bool operator!=(const Gd &) const; }; struct Plain { public: bool operator==(const Plain &) const; bool operator!=(const Plain &) const; }; enum En { En1 }; namespace In { struct Gi { Q_GADGET public: bool operator==(const Gi &) const; bool operator!=(const Gi &) const; }; } struct Ob : QObject { Q_OBJECT }; }\nusing namespace NS;\n'''
    props = [("GG", 0, ""), ("NS::Gd", 0, ""), ("Gd", "NS::Gd", ""), ("NS::Plain", 0, ""), ("Plain", 0, ""), ("En", 0, ""), ("NS::In::Gi", 0, ""), ("In::Gi", "NS::In::Gi", ""), ("GEn", 0, ""), ("Ob *", 0, ""), ("NS::Ob *", 0, ""), ("int", 0, ""), ("QString", 0, ""), ("QList<int>", 0, "")]
    for qt in (5, 6):
        for ns in ("", "NS", "NS::In"):
            cl = []
            k = 0
            for n in (1, 2):
                for ps in itertools.product(props, repeat=n):
                    if ns == "" and any(p[0] == "In::Gi" for p in ps) and False:
                        continue
                    k += 1
                    for read in ("READ p%d", "MEMBER p%d", "READ p%d WRITE s%d"):
                        if n == 2 and read != "READ p%d":
                            continue
                        name = "P%d%s" % (k, "rmw"[("READ p%d", "MEMBER p%d", "READ p%d WRITE s%d").index(read)])
                        decl = "".join("Q_PROPERTY(%s p%d %s)\n" % (p[0], i, read.replace("%d", str(i))) for i, p in enumerate(ps))
                        mem = "".join(("%s p%d;" if "MEMBER" in read else "%s p%d() const;") % (p[0], i) + (" void s%d(%s);" % (i, p[0]) if "WRITE" in read else "") for i, p in enumerate(ps))
                        want = ["Q_PROPERTY of type %s should use full qualification (%s)" % (p[0], p[1]) for p in ps if p[1]]
                        if "MEMBER" in read:
                            want = [x for x in want]
                        cl.append((name, "class %s : public QObject { Q_OBJECT %s public: %s };" % (name, decl.replace("\n", " "), mem), want))
            text = "#include <QtCore/QObject>\n#include <QtCore/QString>\n#include <QtCore/QList>\n" + gadgets + (("namespace %s {\n" % ns) if ns else "\n")
            first = text.count("\n") + 1
            text += "\n".join(c[1] for c in cl) + ("\n}\n" if ns else "\n")
            with tempfile.TemporaryDirectory() as t:
                open(t + "/x.h", "w").write(text)
                subprocess.run([MOC[qt], "-i", t + "/x.h", "-o", t + "/x.moc"], check=True, capture_output=True)
                gen = open(t + "/x.moc").read()
            r = pool.run([{"args": corpus.flags(qt, "c++17") + clazy_args(CHECK), "main": "/v/x.cpp", "files": {"/v/x.cpp": text + '#include "x.moc"\n', "/v/x.moc": gen}, "timeout": 300}])[0]
            errs = [d["msg"] for d in r.get("diags", []) if d["level"] in ("error", "fatal")]
            if "crash" in r or errs:
                ck.violate("property qt%d %s" % (qt, ns), {"errors": errs[:3], "crash": r.get("crash")})
                continue
            by = {}
            for d in clazy_diags(r):
                by.setdefault(d["line"], []).append(d["msg"][:d["msg"].rfind(" [-W")])
            for i, c in enumerate(cl):
                states += 1
                got = by.pop(first + i, [])
                trans += len(got)
                if sorted(set(got)) != sorted(set(c[2])):
                    ck.violate("property qt%d %s %s" % (qt, ns, c[1]), {"want": c[2], "got": got})
            if by:
                ck.violate("property qt%d %s elsewhere" % (qt, ns), {str(k): v for k, v in list(by.items())[:3]})
        ck.cov["properties qt%d" % qt] = len(cl)
    ck.cov.update({"states": states, "transitions": trans, "traces_validated_against_impl": states, "exhaustive": True})
    ck.finish()


def apply(pool, args, codes, per=300):
    """The cases with the edits of their first warning applied."""
    jobs, groups = [], [list(range(i, min(i + per, len(codes)))) for i in range(0, len(codes), per)]
    for g in groups:
        jobs.append({"args": list(args) + clazy_args(CHECK), "main": "/v/x.cpp", "files": {"/v/x.cpp": PRO + TYPES + "".join(codes[i] for i in g)}, "timeout": 300})
    out = [None] * len(codes)
    for g, r in zip(groups, pool.run(jobs)):
        off = len((PRO + TYPES).encode())
        edits = [f for d in clazy_diags(r) for f in d.get("fix") or []]
        for i in g:
            c = codes[i].encode()
            mine = sorted((f["off"] - off, f["len"], f["text"]) for f in edits if off <= f.get("off", -1) < off + len(c) and not f.get("bad"))
            for o, l, t in reversed(mine):
                c = c[:o] + t.encode() + c[o + l:]
            out[i] = c.decode() if mine else None
            off += len(codes[i].encode())
    return out


if __name__ == "__main__":
    main()
