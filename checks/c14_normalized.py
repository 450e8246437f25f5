"""C14: connect-not-normalized. Every type over a token alphabet up to a bound, and every small signature of such types, against
QMetaObject::normalizedSignature / normalizedType of the real Qt."""
import itertools, subprocess
import vbuild, batch
from drv import Pool
from report import Check

CHECK = "connect-not-normalized"
PRO = '''const char *qFlagLocation(const char *); struct Conn { }; struct QObject { static Conn connect(const QObject *, const char *, const QObject *, const char *); Conn connect(const QObject *, const char *, const char *) const; static bool disconnect(const QObject *, const char *, const QObject *, const char *); };
#define SIGNAL(a) qFlagLocation("2" #a "\\0" __FILE__ ":1")
#define SLOT(a) qFlagLocation("1" #a "\\0" __FILE__ ":1")
struct QGenericArgument { QGenericArgument(const char *, const void *); }; struct QGenericReturnArgument { QGenericReturnArgument(const char *, void *); };
template<class T> struct QArgument : QGenericArgument { QArgument(const char *n, const T &d) : QGenericArgument(n, &d) { } };
template<class T> struct QReturnArgument : QGenericReturnArgument { QReturnArgument(const char *n, T &d) : QGenericReturnArgument(n, &d) { } };
struct QMetaMethodArgument { }; template<class T> QMetaMethodArgument arg6(const char *, const T &); struct QMetaMethodReturnArgument { }; template<class T> QMetaMethodReturnArgument ret6(const char *, T &);
void use(...); extern QObject o; extern int v; const char *helper(const char *); struct Other { void slot(const char *); void connect(int); };
'''


def oracle(ver, lines):
    r = subprocess.run([vbuild.norm(ver)], input="\n".join(lines) + "\n", capture_output=True, text=True, check=True)
    return r.stdout.split("\n")[:len(lines)]


def c(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def main():
    ck = Check("C14", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    # Types: every sequence of tokens
    toks = ["const", "int", "unsigned", "long", "Foo", "A::B", "*", "&", "<", ">", ",", "struct", "short", "char", "void", "volatile", "enum", "class", "constX", "uint"]
    few = ["const", "int", "unsigned", "long", "Foo", "*", "&", "<", ">", "struct", ","]

    def balanced(t):
        d = 0
        for x in t:
            d += (x == "<") - (x == ">")
            if d < 0:
                return False
        return d == 0

    def sensible(t):
        """Not obviously beyond C++: no operator first, nothing but a name before '<', no empty template lists, commas only inside."""
        d = 0
        prev = None
        word = lambda x: x is not None and (x[0].isalpha())
        for x in t:
            if x in ("*", "&", ">") and not (word(prev) or prev in ("*", "&", ">")):
                return False
            if x == "*" and prev == "&":
                return False
            if x == "<" and prev not in ("Foo", "A::B", "constX"):
                return False
            if x == ",":
                if d == 0 or prev in (",", "<"):
                    return False
            d += (x == "<") - (x == ">")
            prev = x
        return prev not in (",", "<")
    tt = [t for n in (1, 2, 3) for t in itertools.product(toks, repeat=n)]
    tt += [t for n in ((4, 5) if not T else (4, 5, 6)) for t in itertools.product(few, repeat=n)]
    tt = [t for t in tt if balanced(t) and sensible(t)]

    def spell(t, mode):
        """mode 0: minimal blanks, 1: blanks between all tokens, 2: blanks everywhere twice, 3: blank before an operator, 4: after"""
        out = ""
        for i, x in enumerate(t):
            if i:
                need = t[i - 1][-1].isalnum() and x[0].isalnum()
                if mode == 0:
                    out += " " if need or (t[i - 1] == ">" and x == ">") else ""
                elif mode == 1:
                    out += " "
                elif mode == 2:
                    out += "  \t"[:2 + i % 2]
                elif mode == 3:
                    out += " " if need or not x[0].isalnum() else ""
                elif mode == 4:
                    out += " " if need or not t[i - 1][-1].isalnum() else ""
                elif mode == 5:
                    out += " " if need else ""
            out += x
        return out if mode != 2 else " " + out + " "
    types = []
    for t in tt:
        for m in ((0, 1, 2, 3, 4, 5) if len(t) <= 4 or T else (0, 1)):
            types.append(spell(t, m))
    types = list(dict.fromkeys(types))
    extra = ["const QString &", "QString const &", "QString const&", "const char * const", "char const * const", "QList<const QString &>", "QList<QString const*>", "const QList<QString> &", "QMap<QString,QList<int> >", "QMap<QString,QList<int>>", "unsigned", "unsigned int", "unsigned long int", "unsigned long long", "long unsigned int", "unsigned short int", "signed int", "struct Foo", "class Foo*", "enum Foo::Bar", "const struct Foo&", "Foo<struct Bar>", "Foo<const Bar>", "Foo<(1>2)>", "Foo<[<]>", "std::function<void(int)>", "Foo[3]", "int(*)(int)", "constFoo", "Fooconst", "const_iterator", "Foo::const_iterator", "unsignedFoo", "structFoo", "Foo &&", "const Foo &&", "void", "void *", "const void*", "Foo const", "Foo const * const *", "Foo< Bar >", "Foo<Bar*const>", "Foo<Bar const &, Baz const &> const &", "A<B<C<D> > >", "A<B<C<D>>>", "::Foo", "const ::Foo&", "ulong", "qint64", ""]
    types = list(dict.fromkeys(types + extra))
    # signatures
    sigs = ["f(%s)" % t for t in types]
    small = ["int", "const QString &", "Foo const*", "QMap<int, Foo>", "unsigned int", "void", " QList<const Foo& > const &", "char*", "const Foo", "struct Foo"]
    for n in (2, 3) if not T else (2, 3, 4):
        for p in itertools.product(small if n < 4 else small[:6], repeat=n):
            for sep in ((",", ", ", " ,") if n == 2 else (",",)):
                sigs.append("slot(%s)" % sep.join(p))
    names = ["f", " f", "f ", "void f", "int  foo", "A::f", "operator=="]
    sigs += ["%s(%s)%s" % (n, a, tail) for n in names for a in ("", "int", "int, int", " ", "const QString&", "void", " void ") for tail in ("", " ", " const", ";")]
    sigs += ["", "f", "f(", "f)", "f(int", "f((int))", "f(int)(int)", "f(int,)", "f(,int)", "f(int , int)", "1", "()", "f(QMap<int,QString>)", "f(QMap<int,(a,b)>)", "f(" + "const Foo &," * 40 + "int)", "f(" + "A<" * 60 + "int" + " >" * 60 + ")"]
    sigs = list(dict.fromkeys(sigs))
    want5 = oracle(5, ["S1" + s for s in sigs])
    want6 = oracle(6, ["S1" + s for s in sigs])
    wt5 = oracle(5, ["T" + s for s in types])
    wt6 = oracle(6, ["T" + s for s in types])
    cases = []      # (code, expected list of messages, key)
    msg = lambda n, o: "Signature is not normalized. Use %s instead of %s" % (n, o)
    for s, n in zip(sigs, want5):
        w = [msg(n[1:], s)] if n != "1" + s else []
        cases.append(('o.connect(&o, qFlagLocation("1%s"), &o, "1x()");' % c(s), w, "connect " + s))
    for s, n in zip(types, wt5):
        w = [msg(n, s)] if n != s else []
        cases.append(('use(QArgument<int>("%s", v));' % c(s), w, "QArgument " + s))
    ck.cov["signatures"], ck.cov["types"] = len(sigs), len(types)
    # call forms
    few = [("f(int)", None), ("f(const QString &)", "f(QString)"), ("f(int, int)", "f(int,int)")]
    FORM = [('o.connect(&o, SIGNAL(@), &o, SLOT(#));', 2), ('QObject::connect(&o, SIGNAL(@), &o, SLOT(#));', 2), ('o.connect(&o, SIGNAL(@), SLOT(#));', 2), ('if (true) { use(1); o.connect(&o, SIGNAL(@), SLOT(#)); }', 2), ('o.connect(&o, (SIGNAL(@)), SLOT(#));', 2),
            ('o.disconnect(&o, SIGNAL(@), &o, SLOT(#));', 0), ('use(SIGNAL(@), SLOT(#));', 0), ('const char *s1 = SIGNAL(@); const char *s2 = SLOT(#);', 0), ('Other().slot(SIGNAL(@)); (void)SLOT(#);', 0), ('o.connect(&o, "2@", &o, "1#");', 0), ('o.disconnect(&o, 0, &o, SLOT(#)); o.connect(&o, SIGNAL(@), &o, "");', 1), ('use(o.connect(&o, SIGNAL(@), SLOT(#)));', 2), ('[] { o.connect(&o, SIGNAL(@), SLOT(#)); };', 2),
            ('static Conn cn = o.connect(&o, SIGNAL(@), SLOT(#));', 2)]
    for form, k in FORM:
        for (a, na), (d, nd) in itertools.product(few, few):
            w = []
            if k and na:
                w.append(msg(na, a))
            if k == 2 and nd:
                w.append(msg(nd, d))
            cases.append((form.replace("@", a).replace("#", d), sorted(w), "form"))
    for t, n in (("int", None), ("const QString &", "QString"), ("Foo  *", "Foo*")):
        for form in ('use(QReturnArgument<int>("@", v));', 'use(QArgument<int>("@", v), 1);', 'QArgument<int> q("@", v);', 'use(arg6("@", v));', 'use(ret6("@", v));', 'QGenericArgument g = QArgument<int>("@", v);', 'QReturnArgument<int> q{"@", v};'):
            cases.append((form.replace("@", t), [msg(n, t)] if n else [], "form"))
        for form in ('use(QGenericArgument("@", &v));', 'use("@", v);', 'helper("@");'):
            cases.append((form.replace("@", t), [], "form"))
    srcs = ["void w%d() { %s }\n" % (i, x[0]) for i, x in enumerate(cases)]
    got = batch.run(pool, ["-std=c++17", "-w"], PRO, srcs, CHECK, per=1500)
    nw = 0
    for (code, w, key), g in zip(cases, got):
        key = key if key != "form" else code
        if isinstance(g, dict):
            ck.violate("result " + key[:200], g)
            continue
        o = sorted(x[2] for x in g)
        nw += bool(o)
        if o != w:
            ck.violate(key[:200], {"code": code, "want": w, "got": o})
    ck.cov["qt6_differs_signatures"] = sum(a != b_ for a, b_ in zip(want5, want6))
    ck.cov["qt6_differs_types"] = sum(a != b_ for a, b_ in zip(wt5, wt6))
    ck.diff6 = [(s, a, b_) for s, a, b_ in zip(types, wt5, wt6) if a != b_]
    ck.cov.update({"states": len(srcs), "transitions": len(srcs), "traces_validated_against_impl": len(srcs), "warned": nw, "exhaustive": True})
    ck.sample(cases[500])
    ck.sample(cases[-7])
    ck.finish()
