"""Inputs for C08: classes, functions and namespaces which carry the names clazy looks for, with other signatures than Qt's, used in every
kind of expression; and one program with every feature of the languages clang compiles."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = json.load(open(os.path.join(HERE, "zoo_names.json")))
CLASSES, METHODS = NAMES["classes"], NAMES["methods"]
KINDS = ("member", "static", "derived", "template", "alias", "plain", "cvar", "functor", "namespace", "qobject")

PRE = """namespace std { using size_t = decltype(sizeof 0); template<class T> struct tuple_size; template<size_t n, class T> struct tuple_element; class type_info { }; template<class T> struct initializer_list { const T *p; size_t n; const T *begin() const; const T *end() const; }; }
struct X_ { template<class T> X_(T &&); X_(); X_ *begin(); X_ *end(); X_ *begin() const; X_ *end() const; explicit operator bool() const; operator int() const; X_ &operator*(); X_ *operator->(); X_ &operator++();
template<class T> X_ &operator<<(T &&); template<class T> X_ operator+(T &&) const; template<class T> X_ operator[](T &&) const; template<class...T> X_ operator()(T &&...) const; };
template<> struct std::tuple_size<X_> { static const int value = 2; }; template<std::size_t n> struct std::tuple_element<n, X_> { using type = int; }; template<std::size_t n> int get(const X_ &);
template<class T> bool operator==(const X_ &, T &&); template<class T> bool operator!=(const X_ &, T &&); bool operator!(const X_ &);
X_ sink_(...); template<class T> struct id_ { using t = T; };
"""
ARGS = ("", "0", '"a"', "o", "o, o, o, o", "[] { }", "{}", "0, 0, 0, 0, 0, 0", "nullptr, &f_", "o, [&](int a) { return a; }", '"a", "b", "c", "d"', "sizeof o", "r", "r, r, r", "o, r, o, r", "r, &f_, o, &f_, 3", "1.0f, 'c'", 'L"w"', "*p, p")
CARGS = ("", "0", '"a"', "nullptr", "0, 0, 0, 0, 0, 0", "sizeof o", "'c', 1.0", "p, p, p", 'L"w", p')
CONTEXTS = ("%s;", "auto x = %s;", "for (auto &&y : %s) { (void)y; }", "sink_(%s, %s);", "if (%s == %s) { }", "(void)!%s;", "if (%s) { } else { }", "using T = decltype(%s);", "[&] { return %s; }();", "const auto &rr = %s;",
            "%s + %s;", "(void)(%s != 0);", "while (%s) { }", "for (; %s; ) { }", "switch ((int)%s) { default: ; }", "static auto s = %s; (void)s;", "throw %s;", "int i[] = { 0 }; i[%s] = 1;", "new X_(%s);", "%s << %s;",
            "(true ? %s : %s);", "X_ y { %s };", "(void)(%s);", "do { } while (%s > 0);", "X_() = %s;", "(%s)[0];", "&(const X_ &)%s;", "auto [a, b] = %s;", "delete (%s).operator->();", "try { %s; } catch (...) { %s; }")


F_ = ("for (auto x : c) { }", "for (const auto &x : d) { }", "for (%s x : { a, b }) { }", "%s l[2]; for (auto &x : l) { }", "{ %s::iterator i; %s::const_iterator j = i; }", "{ auto k = [a, &b, c = a] { return a; }; }",
      "static %s st;", "const %s *n = static_cast<const %s *>(e);", "(void)reinterpret_cast<const %s *>(n);", "(void)(%s *)n;", "(void)dynamic_cast<%s *>(e);", "delete e;", "new %s;", "throw a;", "(*e)++;", "c = d;", "c = c + d;", "(void)sizeof a;", "goto q; q: ;",
      "{ %s x = %s(\"a\"), y{}, z = {}; }", "{ %s x(1, 2, 3); x = {}; }", "if (a == b) { }", "if (c == \"a\") { }", "c[1];", "[](%s x, const %s &y) { return x; }(a, b);", "switch (sizeof(%s)) { case 1: { %s x; } default: ; }", "{ const %s x = true ? a : b; }", "for (%s x; false; ) { x[0]; }", "(void)%s::staticMetaObject;", "for (auto i = d.begin(); i != d.end(); ++i) { }")
G_ = ("%s g1_;", "static const %s g2_ = \"a\";", "extern %s g3_;", "%s *g4_ = new %s(1, 2);", "enum { e_ = sizeof(%s) };", "typedef %s *pt_;", "struct M_ { %s a; const %s b = \"x\"; static %s c; %s &d; %s e[3]; int f : 3; };", "union U_ { int a; %s *b; };", "%s ff1_(); %s &ff2_(%s = {}, const %s & = %s());", "template<class T> %s ff3_(T t, %s a) { return a; }", "inline %s g5_[2], *g6_[2];", "const char *operator%(%s a, int);", "%s operator\"\" _q(const char *, unsigned long);")
D_ = ("~D_();", "D_(const D_ &o) : %s(o) { }", "explicit D_(%s *p = nullptr);", "virtual %s v(const D_ &, %s) const;", "D_ *w();", "static int staticMetaObject;", "int qt_metacall(int, int, void **);", "int sig(D_);", "friend %s fr_(D_);", "using %s::operator==;", "operator %s *() const;", "%s mem_, *pm_;")
E_ = "struct E_ final : virtual D_, private %s {\nE_() { v(*this, {}); }\n};\n"


F_ = ("for (auto x : c) { }", "for (const auto &x : d) { }", "for (%s x : { a, b }) { }", "%s l[2]; for (auto &x : l) { }", "{ %s::iterator i; %s::const_iterator j = i; }", "{ auto k = [a, &b, c = a] { return a; }; }",
      "static %s st;", "const %s *n = static_cast<const %s *>(e);", "(void)reinterpret_cast<const %s *>(n);", "(void)(%s *)n;", "(void)dynamic_cast<%s *>(e);", "delete e;", "new %s;", "throw a;", "(*e)++;", "c = d;", "c = c + d;", "(void)sizeof a;", "goto q; q: ;",
      "{ %s x = %s(\"a\"), y{}, z = {}; }", "{ %s x(1, 2, 3); x = {}; }", "if (a == b) { }", "if (c == \"a\") { }", "c[1];", "[](%s x, const %s &y) { return x; }(a, b);", "switch (sizeof(%s)) { case 1: { %s x; } default: ; }", "{ const %s x = true ? a : b; }", "for (%s x; false; ) { x[0]; }", "(void)%s::staticMetaObject;", "for (auto i = d.begin(); i != d.end(); ++i) { }")
G_ = ("%s g1_;", "static const %s g2_ = \"a\";", "extern %s g3_;", "%s *g4_ = new %s(1, 2);", "enum { e_ = sizeof(%s) };", "typedef %s *pt_;", "struct M_ { %s a; const %s b = \"x\"; static %s c; %s &d; %s e[3]; int f : 3; };", "union U_ { int a; %s *b; };", "%s ff1_(); %s &ff2_(%s = {}, const %s & = %s());", "template<class T> %s ff3_(T t, %s a) { return a; }", "inline %s g5_[2], *g6_[2];", "const char *operator%(%s a, int);", "%s operator\"\" _q(const char *, unsigned long);")
D_ = ("~D_();", "D_(const D_ &o) : %s(o) { }", "explicit D_(%s *p = nullptr);", "virtual %s v(const D_ &, %s) const;", "D_ *w();", "static int staticMetaObject;", "int qt_metacall(int, int, void **);", "int sig(D_);", "friend %s fr_(D_);", "using %s::operator==;", "operator %s *() const;", "%s mem_, *pm_;")
E_ = "struct E_ final : virtual D_, private %s {\nE_() { v(*this, {}); }\n};\n"


def members(kind, cname):
    o = []
    for m in METHODS:
        if m == cname:
            continue
        if kind == "static":
            o.append("template<class...T> static X_ %s(T &&...);" % m)
        elif kind in ("member", "template", "derived", "alias"):
            o.append("template<class...T> X_ %s(T &&...); template<class...T> const X_ %s(T &&...) const;" % (m, m))
        elif kind == "plain":
            o.append("virtual void %s();" % m)
        elif kind == "cvar":
            o.append("int *%s(...);" % m)
        elif kind == "functor":
            o.append("X_ %s;" % m)
        else:
            o.append("template<class...T> X_ %s(T &&...);" % m)
    return "\n".join(o)



CTOR = "%s();\nvirtual ~%s();\n%s(const %s &);\n%s(const char *);\ntemplate<class...T> %s(int, T &&...);\n%s &operator=(const %s &);\n%s operator+(const %s &) const;\n%s &operator++();\n%s operator++(int);\nstatic int staticMetaObject;\ntemplate<class T> bool operator==(T &&) const;\nX_ operator[](int);\nstruct iterator { };\nstruct const_iterator { const_iterator(iterator); };\n"


def members(kind, name, methods):
    o = []
    for m in methods:
        if m == name:
            continue
        if kind == "static":
            o.append("template<class...T> static X_ %s(T &&...);" % m)
        elif kind == "plain":
            o.append("virtual void %s();" % m)
        elif kind == "cvar":
            o.append("int *%s(...);" % m)
        elif kind == "functor":
            o.append("X_ %s;" % m)
        else:
            o.append("template<class...T> X_ %s(T &&...);" % m + ("" if kind == "namespace" else " template<class...T> const X_ %s(T &&...) const;" % m))
    return "\n".join(o)


def unit(turn, methods, nctx, classes=CLASSES):
    """One translation unit with every class, the shape of the class depends on the turn. Not all lines compile; each line stands for itself."""
    s, types = PRE, []
    for n, cls in enumerate(classes):
        kind = KINDS[(n + turn) % len(KINDS)]
        ty = cls
        it = "".join("X_ *%s() const;\n" % b for b in ("begin", "end") if b not in methods or kind == "derived")
        ctor = CTOR.replace("%s", cls) + it
        if kind == "namespace":
            s += "struct O%d_ { X_ *begin() const; X_ *end() const; O%d_(); O%d_(const char *); template<class...T> O%d_(int, T...); O%d_ operator+(const O%d_ &) const; O%d_ &operator++(); O%d_ operator++(int); int operator[](int); bool operator==(const O%d_ &); static int staticMetaObject; struct iterator { }; typedef iterator const_iterator; };\nnamespace %s {\n%s\n}\n".replace("O%d_", "O" + str(n) + "_") % (cls, members(kind, None, methods))
            ty = "O%d_" % n
        elif kind == "template":
            s += "template<class...A> struct %s { %s %s\n};\n" % (cls, ctor, members(kind, cls, methods))
            ty = "%s<int, X_>" % cls
        elif kind == "derived":
            s += "struct B%d_ { virtual ~B%d_();\n%s\n};\nstruct %s : B%d_ { %s\n};\n" % (n, n, members(kind, "B%d_" % n, methods), cls, n, ctor)
        elif kind == "qobject" and cls != "QObject" and types and "QObject" in types:
            s += "struct %s : QObject { %s %s\n};\n" % (cls, ctor, members(kind, cls, methods))
        elif kind == "alias":
            s += "struct A%d_ { %s %s\n};\nusing %s = A%d_;\n" % (n, CTOR.replace("%s", "A%d_" % n) + it, members(kind, "A%d_" % n, methods), cls, n)
        else:
            s += "struct %s { %s %s\n};\n" % (cls, ctor, members(kind, cls, methods))
        types.append(ty)
    for n, cls in enumerate(classes):
        kind = KINDS[(n + turn) % len(KINDS)]
        ty, nt = types[n], types[(n + 1 + turn) % len(types)]
        s += "namespace n%d_ {\n" % n
        s += "void f_(%s a, const %s b, %s &c, const %s &d, %s *e, %s &&g) {\n".replace("%s", ty)
        s += "".join(x + "\n" for x in F_).replace("%s", ty) + "}\n" + "".join(x + "\n" for x in G_).replace("%s", ty)
        if kind != "namespace":
            s += "struct D_ : %s {\n".replace("%s", ty) + "".join(x + "\n" for x in D_).replace("%s", ty) + "};\n" + E_.replace("%s", ty)
        qual = cls + "::" if kind == "namespace" else ""
        for k, m in enumerate(methods):
            if m == cls:
                continue
            s += "X_ t%d_(%s o, %s *p, const %s &q, %s r) {\n" % (k, ty, ty, ty, nt)
            off = k * 5 + n * 7 + turn * 3
            for i in range(nctx):
                c = (off + i * 11) % len(CONTEXTS)
                d = (off // 2 + i * 7 + turn) % len(ARGS)
                a = ARGS[d] if kind not in ("plain", "cvar") else "" if kind == "plain" else CARGS[d % len(CARGS)]
                if qual:
                    e = "%s%s(%s)" % (qual, m, a)
                else:
                    e = ("o.%s(%s)", "p->%s(%s)", "q.%s(%s)", ty + "().%s(%s)", ty + "::%s(%s)" if kind == "static" else "o.%s(%s)", "(*p).%s(%s)")[(off + i + turn // 2) % 6] % (m, a)
                s += "{ " + CONTEXTS[c].replace("%s", e) + " }\n"
            s += "return {};\n}\n"
            if not qual:
                s += "template<class T> X_ u%d_(T t, %s o, %s *p, %s rr) { t.%s(o); o.%s(t); T::%s(t, 0); return T().%s(\"a\") + p->%s(rr, t); } int hh%d_ = sizeof(u%d_(%s(), %s(), nullptr, %s()));\n" % (k, ty, ty, nt, m, m, m, m, m, k, k, ty, ty, nt)
        s += "}\n"
    return s


FEATURES = r"""
namespace std { using size_t = decltype(sizeof 0); template<class T> struct initializer_list { const T *p; size_t n; const T *begin() const; const T *end() const; }; }
template<class T> concept Small = sizeof(T) < 9 && requires(T t) { t + t; };
template<Small T> auto sum(T a, auto... b) { return (a + ... + b); }
template<class...T> struct Over : T... { using T::operator()...; };
template<class...T> Over(T...) -> Over<T...>;
struct Agg { int a, b = 2; double c[3]; int bits : 5 = 3; }; struct Agg2 { struct { int x; }; union { int u; float f; }; };
struct Empty { [[no_unique_address]] struct {} e; auto operator<=>(const Empty &) const = default; };
enum class Sc : unsigned char { A = 1, B = A << 3, C = ~0 & 0xff }; enum Un { U1, U2 = -1, U3 = U1 | U2 }; enum Fwd : int; using enum Sc;
extern "C" { int printf(const char *, ...); void cb(void (*)(int, ...)); } extern "C" int cvar;
inline namespace v1 { namespace { constexpr int k = 3; constinit int ci = 3; thread_local int tl = k; } }
int operator""_w(const char *s, std::size_t n) { return s[n - 1]; } template<char...c> int operator""_t() { return sizeof...(c); }
template<class T, auto v = 0> struct NT { static inline T s = v; template<class U> friend struct Other; T operator[](T x) const { return x; } operator T *() { return &s; } ~NT() noexcept(false) { } };
template<> struct NT<int, 3>; template<class T> struct NT<T *, nullptr> { };  template<template<class, auto> class TT> struct TTT { TT<int, 1> m; };
struct Base { virtual ~Base() = default; virtual int v(int = 3) const &; virtual void w() && = 0; Base &operator=(Base &&) = delete; explicit(sizeof(int) > 2) Base(int); Base() : Base(1) { } protected: int p; };
int Base::v(int) const & try { return p; } catch (const int &e) { throw; } catch (...) { return __LINE__; }
struct Der final : virtual Base, private Empty { using Base::Base; int v(int x) const & override { return Base::v(x) + this->p; } void w() && override; int *m = nullptr; int Der::*pm = nullptr; int (Der::*pf)(int) const & = &Der::v; };
int all(int n, char *s, Der &d, const Der *c, int (&arr)[4], int &&rr, ...) {
  auto l = [n, &d, s = s + 1, c2 = &arr]<class T>(T t, auto &&...r) mutable noexcept -> decltype(auto) { return sum(t, static_cast<int>(r)...) + n; };
  auto o = Over{[](int) { return 1; }, [](double) { return 2.; }}; o(1); o(2.0); l(1, 2L, 'c');
  auto [x, y, z, bi] = Agg{.a = 1, .c = {1, 2}}; auto &[p0, p1, p2, p3] = arr; static Agg st[] = {{1}, {2, 3}}; int vla[n]; int lst[]{1, 2, 3}; for (int e : {1, 2, 3}) x += e; for (auto i = 0; auto &e : arr) { e += i++; continue; }
  if (int q = n; q > 3) { } else if constexpr (sizeof(n) == 4) { } else { static_assert(sizeof(int) == 4, "x"); }
  switch (auto q = n; q) { case 1 ... 3: [[fallthrough]]; case 5: { break; } default: for (;;) { do { goto mid; } while (n-- > 0); } }
  while (int w = n) { if (w) continue; else break; } delete new int[n]{1}; delete[] new Der *[3]; ::new int(3); (void)(n ?: 3); (void)({ int t = n; t + 1; });
  mid: void *lab = &&lb2; if (!n) goto *lab; lb2: ; asm volatile("nop" : "+r"(n) : "m"(*s) : "memory"); (d.*d.pf)(3); (c->*c->pf)(3); d.*d.pm = 3 * 2, *d.m = -n; (*+[](int a) { return a; })(n); n = n << 2 | n >> 1 ^ ~n & !n; n += n -= n *= 2;
  const_cast<char &>(*s) = 'x'; reinterpret_cast<long &>(n) = 0; dynamic_cast<const Der &>(*static_cast<const Base *>(c)).v(1); (void)sizeof(int[3]), (void)alignof(Der), (void)noexcept(throw 3); int(3); (float)n; int{3}; __typeof__(n) tn = n; __auto_type ta = n; _Complex double cd = 1.0; (void)__real__ cd; (void)__builtin_offsetof(Agg, c[1]); __int128 big = n; _Atomic int at = 1; typedef int v4 __attribute__((vector_size(16))); v4 vv = {1, 2, 3, 4}; vv += vv; vv[1]++; using fp = void (*)(int); fp f = [](int) { }; f(1); (*f)(2); (&*f)(3);
  "abc" "def"[1], L"w", u8"u", u"u", U"U", R"x(raw)x", 'ab', L'w', 0x1p3, 1'000, 0b11, 077, 1.e3f, 10_t; "s"_w; 12_t; nullptr; true; __func__, __PRETTY_FUNCTION__; this_is: ; struct Local { int g() { return 1; } } loc; loc.g(); union { int i; float g; } an2; an2.i = 1; extern int ex; int ex2(); Sc e = B; e = static_cast<Sc>(int(e) | 1);
end: return __builtin_constant_p(n) ? 1 : 2; }
struct Co { struct promise_type { Co get_return_object(); int initial_suspend(); }; }; template<class T> T tv = T(1); template<> inline int tv<int> = 2; auto trailing() -> int (*)[3]; int (*(*fpp)(int))(char); [[deprecated("x"), nodiscard]] int attr [[maybe_unused]]; alignas(16) int al; int __attribute__((weak)) weak(); decltype(auto) da = (al); static_assert(true); ; _Pragma("once") typedef struct { int x; } TD, *PTD;
template<class T> void dep(T t, typename T::type u, T *p = {}) { typename T::template R<int> r(t); t.template f<int>(u)(p)[1]->x.y++; this_dep(t); for (auto &x : t) x = u; new T(t); delete t; throw t; (T)u; T(u, 1); T{u}; t ? u : t; !t && t || *t == &u; sizeof(t); t.~T(); p->T::h(); static_cast<T &&>(t); [t](auto x) { return x + t; }(u); switch (t) { case T::a: ; } if (T x = u) { } goto q; q: ; }
"""
CODE_C = r"""
#include <stddef.h>
struct S { int a, b[3]; struct { int c; } d; unsigned e : 3; }; typedef struct S S; enum E { A, B = 5 }; union U { int i; float f; };
static int f(int a, const char *restrict s, S v, S *p, int n, int arr[static 3], int vla[n]) { S l = { .a = 1, .b = { [1] = 2 } }; S *q = &(S){ 1, { 2 } }; int x = _Generic(a, int: 1, default: 2); for (int i = 0; i < n; i++) x += vla[i]; switch (a) { case A: break; default: goto e; } do x--; while (x > 0); if (a) return sizeof v; else ; p->b[1] = (a, x); void (*fp)(int) = 0; fp ? fp(1) : (void)0; ({ x; }); e: return x ?: l.a + q->d.c; }
int kr(); int kr2(void) { extern int z; static int c; register int r = c++; volatile int w = r; return kr(1, "a", 2.0) + f(1, "s", (S){ 0 }, 0, 3, (int[]){ 1, 2, 3 }, 0) + w; } int getenv(); int use(void) { return getenv("A") + getenv(); } _Static_assert(1, "x"); _Noreturn void die(void); _Thread_local int tl; int tent; int tent;
"""
CODE_OBJC = r"""
@protocol P - (int)m:(int)x; @optional @property (readonly) int q; @end
__attribute__((objc_root_class)) @interface I <P> { int iv; } + (id)alloc; - (id)init; @property (nonatomic, assign) int p; - (int)m:(int)x; - (void)many:(int)a, ...; @end
@interface I (Cat) - (int)cat; @end @class Fwd;
@implementation I  + (id)alloc { return 0; } - (id)init { if (self) self.p = [self m:3]; return self; } - (int)m:(int)x { @try { @throw self; } @catch (I *e) { } @finally { } @synchronized(self) { iv = x; } for (;;) { break; } return [(id)self cat] + self->iv; } - (void)many:(int)a, ... { SEL s = @selector(m:); Protocol *pr = @protocol(P); const char *e = @encode(int); int (^b)(int) = ^(int y) { return y + self.p; }; b(1); [[I alloc] init]; (void)s, (void)pr, (void)e; } @end
@implementation I (Cat) - (int)cat { return 1; } @end
"""


def monsters(n):
    """Deep and long programs: [(name, source)]"""
    q = "struct QString { QString(); QString(const char *); QString arg(int) const; QString &operator+=(const QString &); QString operator+(const QString &) const; int size() const; };\n"
    yield "comment-long", "// clazy:exclude=" + "a," * 40 * n + "\nint a;\n"
    yield "comment-long2", "// clazy:exclude=" + "x" * 400 * n + "\nint a; // clazy:excludeall=" + "y" * 400 * n + "\n/* " + "clazy:exclude=z " * 40 * n + " */"
    yield "comment-many", "// clazy:exclude=foo\n" * 20 * n + "int a;\n"
    yield "comment-nolint", "int a; // NOLINT(" + "clazy-x," * 40 * n + ")\n"
    yield "else-if", "int f(int a) {\n" + "if (a) { a = 1; } else " * n + "{ }\nreturn a; }\n"
    yield "loops", "int f(int a) {\n" + "for (int i = 0; i < a; ++i) { while (a) { " * (n // 4) + "a++;" + "} }" * (n // 4) + "return a; }\n"
    yield "blocks", "int f(int a) {\n" + "{" * (n // 2) + "a++;" + "}" * (n // 2) + "return a; }\n"
    yield "lambdas", "int f(int a) {\nreturn " + "[&] { return " * (n // 16) + "a" + "; }()" * (n // 16) + "; }\n"
    yield "parens", "int f(int a) { return " + "(" * (n // 2) + "a" + ")" * (n // 2) + "; }\n"
    yield "plus", q + "QString f(QString a) { return " + "a + " * n + "a; }\n"
    yield "chain", q + "QString f(QString a) { return QString(\"%1\")" + ".arg(1)" * n + "; }\n"
    yield "ternary", "int f(int a) { return " + "a ? a : " * n + "a; }\n"
    yield "logic", "int f(int a) { return " + "a == 1 || a && " * n + "a; }\n"
    yield "args", "void g(...); void f(int a) { g(" + "a, " * 4 * n + "a); }\n"
    yield "stmts", q + "void f(QString a) {\n" + "a += \"x\"; if (a.size() == 0) { a.arg(1); }\n" * 4 * n + "}\n"
    yield "switch", "int f(int a) { switch (a) {\n" + "".join("case %d: a++; break;\n" % i for i in range(4 * n)) + "} return a; }\n"
    yield "enum", "enum E {\n" + "".join("E%d = %d,\n" % (i, 1 << i % 31) for i in range(4 * n)) + "};\n"
    yield "classes", "".join("struct C%d %s{ virtual void f(); ~C%d(); };\n" % (i, ": C%d " % (i - 1) if i else "", i) for i in range(n))
    yield "members", "struct C { C(); virtual void v();\n" + "".join("void m%d() { m%d(); }\n" % (i, (i + 1) % n) for i in range(n)) + "};\nC::C() { m0(); v(); }\n"
    yield "callgraph", "struct C { C(); virtual void v() = 0;\n" + "".join("void m%d() { m%d(); m%d(); }\n" % (i, min(i + 1, n // 4), min(i + 1, n // 4)) for i in range(n // 4 + 1)) + "};\nC::C() { m0(); }\n"
    yield "templates", "template<int n> struct T { int f() { T<n - 1> t; return t.f(); } }; template<> struct T<0> { int f() { return 1; } }; int g() { return T<%d>().f(); }\n" % (n // 2)
    yield "diamond", "struct D0 { virtual void f(); };\n" + "".join("struct L%d : D%d { }; struct R%d : D%d { }; struct D%d : L%d, R%d { };\n" % (i, i - 1, i, i - 1, i, i, i) for i in range(1, 10))
    yield "typedefs", "typedef int T0;\n" + "".join("typedef T%d T%d; T%d v%d; enum { e%d = sizeof(T%d) };\n" % (i, i + 1, i, i, i, i) for i in range(n))
    yield "macros", "#define M0 int a = 1; a++;\n" + "".join("#define M%d M%d { M%d }\n" % (i, i - 1, i - 1) for i in range(1, 10)) + "void f() { M9 }\n"
    yield "string", q + "QString s = \"" + "\\u00e4%1 " * 40 * n + "\"; auto f() { return QString(\"" + "%1" * 40 * n + "\").arg(1); }\n"
    yield "concat", "const char *s = " + "\"a\" " * 10 * n + ";\n"
    yield "nulls", "int a\0;\0 // clazy:exclude=\0x\nbool b = getenv(\"\0\");\n"
    yield "unterminated", "int a; /* clazy:exclude=foo"
    yield "crlf", "int a; // clazy:exclude=foo\r\n#define A \\\r\n 1\r\nint b = A;\r"
    yield "bom", "\ufeffint a; // clazy:exclude=\u00e4\u20ac\nint \u00e4 = 1; const char *s = \"\u20ac\";\n"
    yield "spliced", "in\\\nt a; // clazy:ex\\\nclude=foo\nbool b = get\\\nenv(\"a\\\nb\");\n"
