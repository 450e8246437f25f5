"""C22: jni-signatures. Every string up to a bound over the alphabet of JNI descriptors, in every argument position, against a
recogniser of the grammar."""
import itertools
import vbuild, batch
from drv import Pool
from report import Check

CHECK = "jni-signatures"
PRO = '''typedef struct _jc *jclass; typedef int jint; typedef struct _jo *jobject; struct QString { QString(const char *); };
class QAndroidJniObject { public: QAndroidJniObject(); explicit QAndroidJniObject(const char *className); QAndroidJniObject(const char *className, const char *sig, ...);
 explicit QAndroidJniObject(jclass); QAndroidJniObject(jclass, const char *sig, ...); ~QAndroidJniObject();
 template<class T> T callMethod(const char *, const char *, ...) const; template<class T> T callMethod(const char *) const;
 template<class T> QAndroidJniObject callObjectMethod(const char *) const; QAndroidJniObject callObjectMethod(const char *, const char *, ...) const;
 template<class T> static T callStaticMethod(const char *, const char *, const char *, ...); template<class T> static T callStaticMethod(const char *, const char *); template<class T> static T callStaticMethod(jclass, const char *, const char *, ...);
 template<class T> static QAndroidJniObject callStaticObjectMethod(const char *, const char *); static QAndroidJniObject callStaticObjectMethod(const char *, const char *, const char *, ...);
 static QAndroidJniObject callStaticObjectMethod(jclass, const char *, const char *, ...);
 static QAndroidJniObject fromString(const QString &); QAndroidJniObject getObjectField(const char *, const char *) const; static bool isClassAvailable(const char *); };
class Other { public: Other(const char *, const char *); template<class T> T callMethod(const char *, const char *); };
QAndroidJniObject o; jclass cls; const char *s;
'''


def ident(s):
    return bool(s) and not s[0].isdigit() and all(c.isascii() and (c.isalnum() or c in "_$") for c in s)


def klass(s):
    return all(ident(p) for p in s.split("/"))


def types(s):
    """Positions after each type descriptor s can be split into, or None."""
    i = 0
    while i < len(s):
        while i < len(s) and s[i] == "[":
            i += 1
        if i == len(s):
            return False
        if s[i] in "ZBCSIJFD":
            i += 1
        elif s[i] == "L":
            j = s.find(";", i)
            if j < 0 or not klass(s[i + 1:j]):
                return False
            i = j + 1
        else:
            return False
    return True


def one(s):
    """exactly one type"""
    t = s.lstrip("[")
    return types(s) and (len(t) == 1 or (t[:1] == "L" and t.index(";") == len(t) - 1))


def sig(s):
    if not s.startswith("(") or ")" not in s:
        return False
    a, r = s[1:].split(")", 1)
    return types(a) and (r == "V" or one(r))


CL, ME, SI, CT = ("Invalid class name", klass), ("Invalid method name", ident), ("Invalid method signature", sig), ("Invalid constructor signature", sig)
# (code with one @ per literal position, what each position is)
FORMS = [("o.callMethod<jint>(@, @);", ME, SI), ("o.callMethod<jint>(@);", ME), ("o.callObjectMethod<int>(@);", ME), ("o.callObjectMethod(@, @);", ME, SI), ("o.callObjectMethod(@, @, 1, \"not checked;\");", ME, SI),
         ("QAndroidJniObject::callStaticMethod<jint>(@, @, @);", CL, ME, SI), ("QAndroidJniObject::callStaticMethod<jint>(@, @);", CL, ME), ("QAndroidJniObject::callStaticMethod<void>(cls, @, @, 3);", ME, SI),
         ("QAndroidJniObject::callStaticObjectMethod(@, @, @, s);", CL, ME, SI), ("QAndroidJniObject::callStaticObjectMethod<int>(@, @);", CL, ME), ("QAndroidJniObject::callStaticObjectMethod(cls, @, @);", ME, SI),
         ("QAndroidJniObject v(@);", CL), ("QAndroidJniObject v(@, @);", CL, CT), ("QAndroidJniObject v(@, @, 3);", CL, CT), ("QAndroidJniObject v{@, @};", CL, CT), ("QAndroidJniObject v(cls, @);", CT), ("QAndroidJniObject(@, @).callMethod<int>(\"a\");", CL, CT),
         ("new QAndroidJniObject(@, @);", CL, CT), ("if (o.callMethod<bool>(@, @)) return;", ME, SI), ("(&o)->callMethod<int>((@), @);", ME, SI), ("s == s ? o.callMethod<int>(@, @) : 0;", ME, SI), ("[] { return o.callMethod<int>(@, @); };", ME, SI),
         ("Other(@, @).callMethod<int>(@, @);", None, None, None, None), ("QAndroidJniObject::fromString(@);", None), ("o.getObjectField(@, @);", None, None), ("QAndroidJniObject::isClassAvailable(@);", None), ("o.callMethod<int>(s, s);",)]


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def main():
    ck = Check("C22", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    cases = []

    def add(form, vals):
        code = form[0]
        for v in vals:
            code = code.replace("@", lit(v), 1)
        want = []
        for kind, v in zip(form[1:], vals):
            if kind and not kind[1](v):
                want.append("%s: '%s'" % (kind[0], v))
        cases.append((code, sorted(want)))
    # Names and class names: every string over an alphabet
    al = ["a", "Z", "9", "_", "$", "/", ";", "(", ".", " ", "<", "[", "-", "é"]
    # a non-ASCII letter is not explored where the model would have to decide about Java's Unicode identifiers
    al = al[:-1]
    names = ["".join(p) for n in range(0, 4 if not T else 5) for p in itertools.product(al, repeat=n)]
    for s in names:
        add(FORMS[1], [s])
        add(FORMS[11], [s])
    # Signatures: every string over an alphabet
    al = ["(", ")", "I", "V", "L", "[", ";", "a", "/"]
    for n in range(0, 6 if not T else 7):
        for p in itertools.product(al, repeat=n):
            if n > 4 and (p[0] != "(" or ")" not in p):
                continue
            add(FORMS[0], ["m", "".join(p)])
    # every grammatical signature with up to two (three) parameters, and each single edit of it
    types_ = ["Z", "B", "C", "S", "I", "J", "F", "D", "[I", "[[J", "Ljava/lang/String;", "[LA;", "[[La/b$C_1;", "Lorg/qt5/q/T;"]
    good = ["(%s)%s" % ("".join(p), r) for n in range(0, 3 if not T else 4) for p in itertools.product(types_ if n < 3 else types_[6:12], repeat=n) for r in (types_ if n < 2 else types_[7:11]) + ["V"]]
    for s in good:
        add(FORMS[0], ["m", s])
    edits = ["", "V", "E", "L", ";", "/", "[", "(", ")", "x", "4", ".", " ", "T", "[V"]
    for s in ["()V", "(I)V", "(Ljava/lang/String;)V", "([I[[La/b;)[La/B;", "(La;Lb/c;J)[[D", "(ZBCSIJFD)I"] + (good[::5] if T else []):
        for i in range(len(s) + 1):
            for e in edits:
                add(FORMS[3], ["m", s[:i] + e + s[i:]])
                add(FORMS[3], ["m", s[:i] + e + s[i + 1:]])
    # every call form with every combination of good and bad literals
    pick = {"Invalid class name": ["java/lang/String", "/a", "a/", "a//b", "a.b", "A$1", "qt5/B2", "", "La;"],
            "Invalid method name": ["run", "run2", "a_b$", "a/b", "2a", "", "<init>", "a()", " a"],
            "Invalid method signature": ["()V", "(I)[[I", "()", "V", "", "(V)V", "()[V", "(I)II", "()Ljava/lang/String", "(Ljava.lang.String;)V", "()V ", "(L;)V", "([)V"]}
    pick["Invalid constructor signature"] = pick["Invalid method signature"]
    for f in FORMS:
        for vals in itertools.product(*[pick[k[0]] if k else ["a b", "()V;"] for k in f[1:]]):
            add(f, list(vals))
    # pieces and prefixes of literals
    for code, w in (('o.callMethod<int>("ru" "n;", "()" "V");', ["Invalid method name: 'run;'"]), ('o.callMethod<int>(R"(a b)", u8"()V");', ["Invalid method name: 'a b'"]), ('o.callMethod<int>("a\\x41", "()V");', []), ('o.callMethod<int>("a\\x20", "()V");', ["Invalid method name: 'a '"])):
        cases.append((code, w))
    for n in (10, 1000, 30000, 300000):
        cases.append(('o.callMethod<int>("%s", "(%s)V");' % ("b" * n, "[I" * n), []))
        cases.append(('o.callMethod<int>("%s/", "()L%sb;");' % ("b" * n, "a/" * n), ["Invalid method name: '%s/'" % ("b" * n)]))
    srcs = ["void f%d() { %s }\n" % (i, c) for i, (c, w) in enumerate(cases)]
    got = batch.run(pool, ["-std=c++17", "-w"], PRO, srcs, CHECK, per=1500)
    nw = 0
    for (c, w), g in zip(cases, got):
        if isinstance(g, dict):
            ck.violate("result " + c[:200], g)
            continue
        o = sorted(x[2] for x in g)
        nw += bool(o)
        if o != w:
            ck.violate(c[:200], {"want": w, "got": o})
    ck.cov.update({"states": len(set(srcs)), "transitions": len(srcs), "traces_validated_against_impl": len(srcs), "warned": nw, "call_forms": len(FORMS), "exhaustive": True})
    ck.sample(cases[3000])
    ck.sample(cases[-20])
    ck.assumptions.append("identifiers are ASCII")
    ck.finish()
