"""C13: signals, slots, invokables and plain methods. Enumerates class bodies (sequences of section labels, markers and specifiers per
method, surroundings, several classes per file, headers) and compares clazy's classification, observed through the messages of
fully-qualified-moc-types and the warnings of const-signal-or-slot, incorrect-emit, signal-with-return-value and virtual-signal, with
the meta-object compilers of Qt 5 and Qt 6, run on the same text."""
import itertools, json, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vbuild, batch, mockqt
from drv import Pool
from report import Check

MOC = ["/usr/lib/qt5/bin/moc", "/usr/lib/qt6/libexec/moc"]
ARGS = mockqt.ARGS + ["-std=c++17", "-w", "-ferror-limit=0"]
PRO = '#include "pro.h"\n'
PROH = '#include <qtmock.h>\nnamespace N { enum E {}; struct Base0 {}; class D0 : public QObject { Q_OBJECT }; }\n#define Q_REVISION(...)\n'
KIND = {"signals": "signal", "slots": "slot", "methods": "invokable"}


def moc_tables(tool, texts):
    """[{class: {method: kind}} or None] for every text (a list of case sources, bisected when moc rejects some)."""
    with tempfile.TemporaryDirectory() as d:
        def one(ix):
            p = os.path.join(d, "f%d_%d.h" % (ix[0], ix[-1]))
            with open(p, "w") as f:
                f.write("".join(texts[i] + "\n" for i in ix))
            r = subprocess.run([tool, "-DQ_REVISION(x)=", "--output-json", "-o", p + ".cpp", p], stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True)
            if r.returncode:
                return None
            out = {}
            if os.path.exists(p + ".cpp.json") and os.path.getsize(p + ".cpp.json"):
                for c in json.load(open(p + ".cpp.json"))["classes"]:
                    out[c["className"]] = {m["name"]: KIND[k] for k in ("methods", "slots", "signals") for m in c.get(k, [])}
                    out[c["className"]].update({m["name"]: "invokable" for m in c.get("constructors", [])})
            return out
        res = [None] * len(texts)
        groups = [list(range(i, min(i + 60, len(texts)))) for i in range(0, len(texts), 60)]
        with ThreadPoolExecutor(8) as ex:
            while groups:
                nxt = []
                for g, o in zip(groups, ex.map(one, groups)):
                    if o is not None:
                        for i in g:
                            res[i] = o
                    elif len(g) > 1:
                        k = max(1, len(g) // 6)
                        nxt += [g[i:i + k] for i in range(0, len(g), k)]
                groups = nxt
        return res


LABELS = ["public:", "protected:", "private:", "signals:", "Q_SIGNALS:", "public slots:", "protected slots:", "private slots:", "public Q_SLOTS:", "private Q_SLOTS:"]
FEW = ["public:", "private:", "signals:", "public slots:"]


def klass(n, body, head=" : public QObject", q="Q_OBJECT", kw="class"):
    return "namespace N { %s C%d%s { %s\n%s\n}; }" % (kw, n, head, q, body)


def cases(T):
    """Case sources with @N@ for a unique number; methods are called m<digits>."""
    out = []
    # A. sequences of sections, a method after every label, and one before the first
    for k in range(0, 5 if T else 4):
        for seq in itertools.product(LABELS, repeat=k):
            out.append("namespace N { class C@N@ : public QObject { Q_OBJECT\nvoid m0(E);\n" + "\n".join("%s\nvoid m%d(E);" % (l, i + 1) for i, l in enumerate(seq)) + "\n}; }")
    # B. sequences over few labels with more methods, on the same line
    for k in range(1, 7 if T else 5):
        for seq in itertools.product(FEW, repeat=k):
            out.append("namespace N { struct C@N@ : QObject { Q_OBJECT " + " ".join("%s void m%d(E);void m%d(E);" % (l, 2 * i, 2 * i + 1) for i, l in enumerate(seq)) + " }; }")
    # C. markers and specifiers around one method, in every section
    TOK = ["Q_SIGNAL", "Q_SLOT", "Q_INVOKABLE", "Q_SCRIPTABLE", "virtual", "static", "inline", "[[nodiscard]]", "/*c*/", "//c\n", "\n", "explicit"]
    TOK = TOK[:-1]
    for k in range(0, 5 if T else 4):
        for seq in itertools.product(TOK, repeat=k):
            if any(seq.count(t) > 1 for t in seq):
                continue
            if not any(t.startswith("Q_") for t in seq) and k > 2:
                continue
            for sec in ("public:", "signals:", "public slots:") if k < 3 or T else ("public:",):
                if sec == "signals:" and ("virtual" in seq or "static" in seq or "inline" in seq):
                    continue
                out.append("namespace N { class C@N@ : public QObject { Q_OBJECT\n" + sec + "\nvoid m0(E); " + " ".join(seq) + " int m1(E); void m2(E);\n}; }")
    # D. what else stands in a class body, before, between and after the sections
    ITEM = ["enum X { A, B };", "enum class X : int;", "class In { public: void m90(E); private: void m91(E); protected: int x; };", "struct In { void m90(E); };", "union { int u; float v; };", "class In;", "friend class Other;", "friend void fr(E);",
            "typedef int T;", "using U = int;", "int member;", "static int sm;", "int a, b(int), c;", "Q_PROPERTY(int x READ x)", "explicit C@N@(QObject *p = nullptr);", "C@N@(int, E) {}", "~C@N@();", "void in() { struct L { public: void m92(E); }; E e; { } }", "void d(int = sizeof(int));",
            "// signals:", "/* public slots: */", "int s(const char * = \"signals:\");", "Q_ENUMS(X)", "static_assert(true, \"public slots:\");", "void op(E) const; bool operator==(const C@N@ &) const;", ";", "Q_INVOKABLE C@N@(E, int);", "template<class Q> void tm(Q);", "template<class Q> struct TS { public: void m93(E); };",
            "struct In : QObject { public: void m94(E); };", "void (*fp)(E);", "decltype(0) dt;", "int bit : 3;", "int arr[2] = {1, 2};", "mutable int mu;", "#if 0\nsignals:\n#endif\n", "#ifdef NOPE\nsignals:\n#else\nprivate:\n#endif\n", "#define LOCAL_@N@ 1\n", "class In { class In2 { public: void m95(E); }; void m96(E); };", "int la = [] { return 1; }();"]
    SEC = ["public:", "private:", "public slots:", "private Q_SLOTS:", "signals:", "Q_SIGNALS:"]
    for it in ITEM:
        for a in SEC[:2]:
            for b in SEC:
                for pos in range(3):
                    L = ["void m0(E);", a, "void m1(E);", b, "void m2(E);"]
                    L.insert((0, 2, 3)[pos], it)
                    out.append("namespace N { class C@N@ : public QObject { Q_OBJECT\n" + "\n".join(L) + "\n}; }")
        for a in SEC[2:4]:
            for b in SEC:
                if "C@N@(" in it:
                    continue            # constructors are no slots, wherever they are
                L = [a, "void m1(E);", it, "void m2(E);", b, "void m3(E);"]
                out.append("namespace N { class C@N@ : public QObject { Q_OBJECT\n" + "\n".join(L) + "\n}; }")
    # E. forms of labels
    for sl, sg in itertools.product(["public slots:", "public slots :", "public\nslots\n:", "public /*x*/ slots /*y*/:", "public Q_SLOTS: // signals:", "public\tslots:", "public sl\\\nots:", "protected Q_SLOTS:", "public:", "public : ", "private\n:"],
                                    ["signals:", "signals :", "signals\n:", "signals/**/:", "Q_SIGNALS : // slots", "Q_SIGNALS:/*", "sign\\\nals:", "protected: // signals:", "private:"]):
        x = "signals, too */" if sg.endswith("/*") else ""
        for f in ("{q}\n{a}\nvoid m0(E);\n{b}{x}\nvoid m1(E);", "{q} {a}void m0(E); {b}{x}void m1(E);", "void m9(E);{b}{x} void m0(E);\n{q}\nvoid m2(E);\n{a} void m1(E);", "{q}\n{a}\n{b}{x}\nvoid m1(E); {a} void m0(E);{b}{x} {a} {b}{x}"):
            if ("//" in sl or "//" in sg) and not f.startswith("{q}\n{a}\nvoid"):
                continue
            out.append("namespace N { class C@N@ : public QObject { " + f.format(q="Q_OBJECT", a=sl, b=sg, x=x) + " }; }")
    # F. forms of methods
    for sec in ("", "signals:", "public slots:", "private:\nvoid m8(E);\npublic Q_SLOTS:"):
        for pre in ("", "Q_INVOKABLE ", "Q_SLOT ", "Q_SIGNAL ", "Q_SCRIPTABLE ", "Q_INVOKABLE\n", "virtual Q_INVOKABLE ", "Q_REVISION(1) ", "Q_INVOKABLE Q_REVISION(2) ", "Q_REVISION(2) Q_INVOKABLE "):
            if pre.startswith("virtual") and sec == "signals:":
                continue
            for f in ("void m1(E);", "int m1(E) const;", "void m1(E) noexcept;", "void m1(E = E());", "void m1(E, int = 3, const char * = \"x)\");", "const int *m1(E);", "unsigned int m1(E);", "const QString &m1(E);", "QList<int> m1(E);", "QMap<int, QList<int>> m1(E);", "N::E m1(E) const;", "::N::E m1(E);", "struct Fwd *m1(E);",
                      "enum E m1(E);", "auto m1(E) -> int;", "int *const m1(E);", "void m1(E) &;", "long long m1(E);", "[[nodiscard]] int m1(E);", "void m1(E, ...);", "void m1(E, QMap<int, int> = QMap<int, int>());", "void m1(const QString &, E);", "void m1(int (*f)(int), E);", "void m1(QString a\n, E);",
                      "static void m1(E);", "virtual void m1(E);", "inline void m1(E);", "void m1(E) {}", "void m1(E) { if (true) { } }", "virtual void m1(E) = 0;", "constexpr int m1(E) const;", "explicit operator bool() const; void m1(E);", "void m1(E) override;"):
                if sec == "signals:" and ("{}" in f or "{ if" in f or "static" in f):
                    continue
                base = ": public B@N@ " if "override" in f else ": public QObject "
                b = "struct B@N@ : QObject { virtual void m1(E); };\n" if "override" in f else ""
                if b and "virtual" not in pre and pre.count("Q_") and False:
                    continue
                out.append("namespace N { " + b + "class C@N@ " + base + "{ Q_OBJECT\npublic:\nvoid m5(E);\n" + sec + "\n" + pre + f + "\nvoid m3(E);\n}; }")
    # G. several classes in every order and nesting that moc accepts
    P = ["class C@N@%s%s { Q_OBJECT\nvoid m0(E);\nsignals: void m1(E);\npublic: void m2(E); Q_INVOKABLE void m3(E); };", "struct C@N@%s%s { Q_OBJECT void m0(E);\npublic slots: void m1(E);\nprivate: Q_SIGNAL void m2(E);\nsignals: void m3(E); };",
         "class C@N@%s%s { void m0(E); public: void m1(E);\nprotected: void m2(E); };", "class C@N@%s%s;", "class C@N@%s%s { Q_OBJECT void m0(E); };"]
    for k in (1, 2, 3):
        for seq in itertools.product(range(len(P)), repeat=k):
            for inh in range(3):
                if inh and (k < 2 or any(s == 3 for s in seq[:-1])):
                    continue
                txt, ok = [], True
                for i, s in enumerate(seq):
                    b = " : public QObject" if inh == 0 or i == 0 else " : public C@N@%s" % "abc"[i - 1] if inh == 1 else " : public C@N@a"
                    if s == 3:
                        txt += ["class C@N@%s;" % "abc"[i]]
                    else:
                        txt += [P[s] % ("abc"[i], b)]
                fw = "".join("class C@N@%s; " % "abc"[i] for i in range(k))
                out.append("namespace N { " + fw + "\n" + "\n".join(txt) + "\n}")
                out.append("namespace N { " + "\n".join(txt) + "\n" + fw + " }")
    for ns, cl in (("namespace N { namespace M@N@ {", "} }"), ("namespace N { namespace {", "} }"), ("namespace N { inline namespace V@N@ {", "} }"), ("namespace N::M@N@ {", "}"), ("namespace N { class O@N@ { public:", "}; }"), ("namespace N { class O@N@ { signals: ;\npublic slots: void m50(E); class", "; }; }")):
        for p in P[:3]:
            out.append(ns + " " + (p % ("a", " : public QObject")) + cl)
    for h in (" final : public QObject", " : QObject", " : virtual public QObject", " : public QObject, public Base0", " : public Base0, public QObject", " : public QList<int>, public QObject", " : public D0"):
        for kw in ("class", "struct"):
            for p in P[:3]:
                d = "class D0 : public QObject { Q_OBJECT };" if False else ""
                out.append("namespace N { " + d + (p.replace("class", kw, 1).replace("struct", kw, 1) % ("a", h)) + " }")
    return out


def methods(src):
    """[(class, method, offset of its parameter E)]"""
    cls = [(m.start(), m.group(1)) for m in re.finditer(r"\b(?:class|struct) ([CB]\d\w*)[^;{]*\{", src)]
    out = []
    for m in re.finditer(r"\b(m\d|C\d+)\(([^;{}]*?)\bE\b", src):
        c = [n for p, n in cls if p < m.start()]
        if c and "X(" not in m.group(2):
            out.append((c[-1], m.group(1), m.end() - 1))
    return out


def documented(src, tab):
    """The table of moc with clazy's documented exception applied (Q_INVOKABLE inside a slots or signals section hides the section); None when
    the source mixes markers in a way that is left open."""
    tab = {c: dict(t) for c, t in tab.items()}
    for c, m, p in methods(src):
        head = re.sub(r"/\*.*?\*/|//[^\n]*", " ", src[:p], flags=re.S)
        decl = re.split(r"[;{}]|(?<!:):(?!:)", head)[-1]
        k = tab.get(c, {}).get(m)
        marks = set(re.findall(r"\bQ_(?:SIGNAL|SLOT|INVOKABLE|SCRIPTABLE)\b", decl))
        sec = re.findall(r"(\w+)\s*:(?!:)", re.sub(r"/\*.*?\*/|//[^\n]*|\"[^\"]*\"|\\\\\n", " ", src[:p], flags=re.S))
        inqt = k in ("slot", "signal") and not marks & {"Q_SLOT", "Q_SIGNAL"}
        if inqt and "Q_INVOKABLE" in marks:
            tab[c][m] = "invokable"
        if marks >= {"Q_SLOT", "Q_SIGNAL"} or k == "slot" and "Q_SIGNAL" in marks or k == "signal" and "Q_SLOT" in marks or k == "invokable" and "Q_INVOKABLE" not in marks:
            return None
        if re.match(r"C\d", m) and "public:" not in head.split("Q_OBJECT")[-1].split("Q_INVOKABLE")[0].rsplit("\n", 2)[-2:][0]:
            return None
    return tab


def pos(src, p):
    return src.count("\n", 0, p), p - (src.rfind("\n", 0, p) + 1) + 1


def main():
    ck = Check("C13", "model_checking")
    pool = Pool(vbuild.build())
    T = ck.thorough()
    cs = [c.replace("@N@", str(i)) for i, c in enumerate(cases(T))]
    files = dict(mockqt.files(), **{"/v/pro.h": PROH})
    tabs = [moc_tables(m, cs) for m in MOC]
    rej = sum(1 for a, b in zip(*tabs) if a is None or b is None)
    tabs = [[t if t is None else documented(c, t) for c, t in zip(cs, tt)] for tt in tabs]
    cs, tabs = zip(*[(c, a) for c, a, b in zip(cs, *tabs) if a is not None and b is not None and all(a.get(k) == b.get(k) for k, _, _ in methods(c))])
    ck.cov["rejected_by_moc"] = rej
    n = nm = bad = 0

    def judge(check, srcs, wants, per=150, args=ARGS, key=None):
        nonlocal n, nm, bad
        for src, w, g in zip(srcs, wants, batch.run(pool, args, PRO, srcs, check, per=per, files=files)):
            n += 1
            if isinstance(g, dict):
                if "crash" in g:
                    ck.violate("%s: %s" % (check, src[:300]), g)
                bad += 1
                continue
            o = sorted(filter(None, (key(x) for x in g)))
            w = sorted(w)
            nm += len(w)
            if o != w:
                ck.violate("%s: %s" % (check, " ".join(src.split())[:200]), {"source": src, "expected": w, "reported": o})

    def kind(t, c, m):
        return t.get(c, {}).get(m)
    # fully-qualified-moc-types names the kind of every method with an unqualified parameter type
    judge("fully-qualified-moc-types", cs, [[pos(s, p) + (kind(t, c, m),) for c, m, p in methods(s) if kind(t, c, m)] for s, t in zip(cs, tabs)],
          key=lambda x: (x[0], x[1], x[2].split(" ")[0]) if " arguments need" in x[2] else None)
    # const getters: const-signal-or-slot, signal-with-return-value
    pl = [(re.sub(r"\b(?:void|int) (m\d)\(E\);", r"int \1(E) const;", s), t) for s, t in zip(cs, tabs) if "static" not in s and "m1(" in s]
    ks, ts = zip(*pl)

    def consts(s, t):
        for c, m, p in methods(s):
            if s[p + 1:p + 8] == ") const" and re.search(r"\bint %s\(E$" % m, s[:p + 1]):
                scriptable = "Q_SCRIPTABLE" in re.split(r"[;{}]|:(?!:)", s[:p])[-1]
                yield c, m, kind(t, c, m), scriptable, s.count("\n", 0, p)
    keep = [i for i in range(len(ks)) if len(list(consts(ks[i], ts[i]))) == len(methods(ks[i]))]
    ks, ts = [ks[i] for i in keep], [ts[i] for i in keep]
    judge("const-signal-or-slot", ks, [["getter %s possibly mismarked as a slot" % m if k == "slot" else "signal %s shouldn't be const" % m for c, m, k, sc, l in consts(s, t) if k in ("slot", "signal") and not sc] for s, t in zip(ks, ts)],
          key=lambda x: re.sub(r"N::.*::(m\d)", r"\1", x[2]) if "::m" in x[2] and re.search(r"::m\d\b", x[2]) else None)
    judge("signal-with-return-value", ks, [[m for c, m, k, sc, l in consts(s, t) if k == "signal" and not sc] for s, t in zip(ks, ts)],
          key=lambda x: x[2].split("(")[0] if "should return void" in x[2] and re.match(r"m\d\(", x[2]) and x[4] != "skip" else None)
    # calls with and without emit; connections
    es, ew, ns, nw = [], [], [], []
    for s, t in zip(cs, tabs):
        ms = [(c, m, p) for c, m, p in methods(s) if re.search(r"\b(void|int) %s\(E$" % m, s[:p + 1]) and s[p + 1] == ")" and c.startswith("C") and m.startswith("m")]
        if "static" in s or not ms or "namespace {" in s or "class O" in s or re.search(r"\bM\d", s) or len({(c, m) for c, m, p in ms}) != len(ms):
            continue
        L, w, L2, w2 = [s, "namespace N {"], [], [s, "namespace N {"], []
        base = s.count("\n") + 2
        for c in sorted({c for c, _, _ in ms}):
            u = "void u%s(%s *p) {" % (c, c)
            L.append(u)
            L2.append(u)
            for _, m, _ in [x for x in ms if x[0] == c]:
                L += ["emit p->%s(E());" % m, "p->%s(E());" % m]
                sig = kind(t, c, m) == "signal"
                at = s.count("\n") + len(L) - 2
                w.append((at + 1, "Missing emit keyword on signal call") if sig else (at, "Emit keyword being used with non-signal"))
                L2.append("QObject::connect(p, &%s::%s, p, &%s::%s);" % (c, m, c, m))
                if not sig:
                    w2.append((s.count("\n") + len(L2) - 1, m))
            L.append("}")
            L2.append("}")
        es.append("\n".join(L + ["}"]))
        ew.append(w)
        ns.append("\n".join(L2 + ["}"]))
        nw.append(w2)
    A2 = ARGS + ["-fno-access-control"]
    judge("incorrect-emit", es, ew, args=A2, key=lambda x: (x[0], x[2].rsplit(" ", 1)[0]))
    judge("connect-non-signal", ns, nw, args=A2, key=lambda x: (x[0], re.sub(r"^\S*::(m\d) is not a signal$", r"\1", x[2])))
    # a class and its bases: overridden-signal
    os_, ow = [], []
    for s, t in zip(cs, tabs):
        cl = re.findall(r"\b(?:class|struct) (C\d+[abc])( : public \w+)? \{", s)
        if len(cl) < 2:
            continue
        up = {c: b.split()[-1] for c, b in cl}
        def_ = {}
        for c, m, p in methods(s):
            def_.setdefault(c, []).append((m, s.count("\n", 0, p)))
        w = []
        for c, ms in def_.items():
            for m, l in ms:
                b = up.get(c)
                while b and b != "QObject":
                    if any(m == x for x, _ in def_.get(b, [])):
                        s1, s2 = kind(t, c, m) == "signal", kind(t, b, m) == "signal"
                        if s1 or s2:
                            w.append((l, "Overriding %s with %s: %s" % ("signal" if s2 else "non-signal", "signal" if s1 else "non-signal", m)))
                            break
                    b = up.get(b)
        os_.append(s)
        ow.append(w)
    judge("overridden-signal", os_, ow, key=lambda x: (x[0], re.sub(r"N::\w+::(m\d)", r"\1", x[2])))
    ck.cov.update({"states": n, "transitions": nm, "traces_validated_against_impl": n - bad, "not_valid_programs": bad, "exhaustive": True})
    ck.sample(cs[77])
    ck.sample(es[99])
    ck.finish()


if __name__ == "__main__":
    main()
