"""Every kind of expression and statement in every kind of function (C08)."""
EXPRS = r"""
(this->*p)()
((*this).*p)()
(k->*p)()
((*k).*p)()
(k->*cp)()
(void)(k->*d)
(void)(this->*d)
this->g()
(*this).g()
(this)->g()
((K*)this)->g()
static_cast<K *>(this)->v()
const_cast<K *>(this)->v()
K::v()
this->K::v()
B::v()
this->B::v()
v()
g()
s()
this->s()
K::s()
k->s()
k->g()
k->v()
k->pure()
(*k)()
(*this)(1)
this->operator()(1)
this->operator()()
k->operator+(1)
(void)(*this + 1)
(void)(*k + 1)
++*this
(*this)++
(void)*this[0][1]
(void)this->operator[](1)
(*this)->g()
this->operator->()->g()
(void)(int)*this
(void)this->operator int()
(void)(bool)*k
fp()
(*fp)()
m.fp2(1)
(m.fp2)(1)
m.arr[2](1)
(*m.fr)(1)
(void)m.i++
(void)--m.i
m.i = m.i = 3
m.i += k->m.i *= 2
(void)&m.i
(void)&K::g
(void)&K::d1
(void)(c ? k : this)->g()
(c ? k : this)->g()
(c ? *k : *this).g()
(k, this)->g()
(*&*this).g()
[this] { g(); }()
[this] { this->g(); v(); }()
[=, *this]() mutable { g(); }()
[&](auto x) { g(); (void)x; }(1)
[k = this] { k->g(); }()
delete k
delete this
delete[] k
(new K2)->g()
(void)new K2[3]
(void)new (k) K2()
(void)K2().g()
K2{}.g()
k->~K()
this->~K()
throw 3
throw *this
throw
return
return g()
return (void)v()
return void(3)
return [] {}()
{ auto l = [this] { g(); }; l(); l.operator()(); }
{ auto &r = *this; r.g(); r.v(); }
{ K *t = this; t->pure(); t->v(); }
{ auto q = &K::g; (this->*q)(); (k->*q)(); }
{ void (B::*q)() = &B::v; (this->*q)(); }
{ using T = K; this->T::v(); }
{ struct L { void g() { } L() { g(); (*this).g(); } } l; l.g(); }
{ static K *t = this; t->g(); static int n = t->m.i; (void)n; }
{ int a[3] = {1, 2}; for (auto &x : a) x = m.i; for (int x : {1, 2}) (void)x; }
for (auto *x = this; x; x = nullptr) x->g()
for (int i = 0; i < m.i; ++i) g()
while (auto *x = k) { x->g(); break; }
do g(); while (m.i-- > 0)
if (auto *x = this; x) x->g(); else k->g()
if (v(), m.i) g()
switch (m.i) { case 1: g(); break; default: v(); }
try { g(); throw 1; } catch (int) { v(); } catch (const B &b) { (void)b; } catch (...) { throw; }
QString().isEmpty()
QString("a").arg(QString("b")).arg(QString("c"))
(void)QString("a").left(1).isEmpty()
QString("a") + "b" + QString("c")
(void)(QString("a") == "b")
(void)(m.s == QString("x"))
m.s = "abc"
m.s += QString("abc")
m.l.append(QString("a"))
m.l << QString("a") << QString("b")
for (const auto x : m.l) (void)x
for (auto &x : m.l) (void)x
for (QString x : K::list()) (void)x
for (auto x : list()) (void)x.size()
(void)list()[0]
(void)list().first()
(void)list().begin()
(void)m.l.begin()
(void)this->m.l[0]
(void)k->m.l.first().isEmpty()
(void)(m.l.begin() != m.l.end())
(void)(m.l.cbegin() != m.l.cend())
(void)m.mp.keys()
(void)m.mp.values().size()
for (auto x : m.mp.keys()) (void)x
(void)m.mp[QString("a")].size()
{ QString x; x = QString("a").toLower(); (void)x.count(); }
{ QList<QString> x; while (m.i) x.append(m.s); }
{ auto x = QString("a") + QString("b"); (void)x; }
{ const QString x = m.s; const auto &y = x; auto z = std::move2(x); (void)y; (void)z; }
connect(this, SIGNAL(a(int)), this, SLOT(b(int)))
QObject::connect(this, SIGNAL(a( int )), k, SLOT(b()))
this->connect(this, &K::g, [this] { g(); })
connect(this, &K::g, this, &K::g)
connect(k, &K::g, [] {})
connect(this, p, this, p)
connect(this, &K::g, this, &K::s)
connect(this, &K::g, &K::s)
connect(k, fpp(), this, fpp())
(this->connect)(this, &K::g, k, &K::g)
disconnect(this, SIGNAL(a()), this, SLOT(b()))
getenv("A")
Q_ASSERT((this->*p2)())
Q_ASSERT((k->*p2)() && !m.s.isEmpty())
Q_ASSERT(m.i++ == 1 && bp() && s2() && [] { return true; }())
Q_ASSERT((*this)[1] && k->operator[](2))
(m.s.*sp)()
(void)(QString("a").*sp)()
(void)(list().*lp)()
(void)(m.l.*lp)()
(void)(m.s.*sp)().isEmpty()
(void)((m.s.*sp)() + "a")
(k->n3->*p)()
Q_ASSERT((m.s.*sp2)(3) > 0)
{ K2 lock; (lock.*kp)(); }
(void)(list().*lp)()[0].size()
(void)getenv(m.s.isEmpty() ? "A" : "B")
(void)tr("x")
(void)tr(c ? "x" : "y")
(void)K::tr(m.cs)
emit g()
emit this->g()
emit k->v()
emit (this->*p)()
emit fp()
emit [] {}()
Q_EMIT g()
foreach (auto x, m.l) (void)x
foreach (const QString &x, list()) x.isEmpty()
t1<int>()
this->template tm<K>(1)
k->tm(this)
t2(m.l)
(&t1<int>)()
(void)sizeof(this->m.l[0])
(void)noexcept(v())
(void)decltype(list())().size()
(void)typeid2(*this)
(void)dynamic_cast<K *>(static_cast<B *>(this))
(void)dynamic_cast<B *>(this)
(void)reinterpret_cast<QObject *>(k)->isWidgetType()
(void)static_cast<QObject *>(this)
(void)(QObject *)this
(void)K2(*k2)
K2 x = *k2; x.g()
K2 y(std::move2(*k2)); (void)y
(void)*k2 = *k2
k2->e(E2::A)
(void)(m.e == E2::A || m.e == E2(1))
m.e = static_cast<E2>(int(m.e) | 1)
auto [a1, b1] = PP{1, 2}; (void)a1; (void)b1
goto end2; end2: g()
asm("")
;
int u1; QString u2; QList<K *> u3; K2 u4
union { int i; void (*f)(); } u; u.f = fp; u.f()
__builtin_trap()
(void)__builtin_choose_expr(1, this, 0)
({ g(); this; })->v()
(void)(k ?: this)->metaObject()
""".strip().split("\n")

# {e}: the statement; {K}: the class
CONTEXTS = {
    "ctor": "{K}() {{ {e} }}", "ctor out of line": "{K}(int);|{K}::{K}(int) {{ {e} }}", "ctor try": "{K}() try {{ {e} }} catch (...) {{ }}",
    "dtor": "~{K}() {{ {e} }}", "dtor out of line": "~{K}() override;|{K}::~{K}() {{ {e} }}", "method": "void h() {{ {e} }}",
    "const": "void h() const {{ {e} }}", "static": "static void h({K} *k) {{ {e} }}", "virtual": "virtual void h2() {{ {e} }}", "override": "void v() override {{ {e} }}",
    "operator": "void operator-() {{ {e} }}", "conversion": "operator void *() {{ {{ {e} }} }}", "assignment": "{K} &operator=(const {K} &o) {{ {{ {e} }} }}", "compare": "bool operator==(const {K} &o) const {{ {{ {e} }} }}",
    "template": "template<class T> void h(T t) {{ {e} }}", "generic lambda": "void h() {{ [&](auto zz) {{ {e}; (void)zz; }}(1); }}", "lambda": "void h() {{ [&] {{ {e} }}(); }}", "lambda in ctor": "{K}() {{ [this] {{ {e} }}(); }}",
    "lambda argument": "void h() {{ connect(this, &{K}::g, this, [this] {{ {e} }}); }}", "lambda init": "int n = [this] {{ {{ {e} }} return 1; }}();", "default argument": "void h(int x = sizeof([] {{ return 1; }}())) {{ (void)x; {e} }}", "local class": "void h() {{ struct L : {K} {{ void i() {{ {e} }} L() {{ {e} }} }}; }}",
    "signals": "signals: void h() {{ {e} }}", "slots": "public slots: void h() {{ {e} }}", "invokable": "Q_INVOKABLE void h() {{ {e} }}", "constexpr": "constexpr void h() {{ {e} }}", "friend": "friend void h({K} *k) {{ {e} }}",
    "noexcept": "auto h() noexcept -> void {{ {e} }}", "if": "void h() {{ if (c) {{ {e} }} else if (k) {{ {e} }} }}", "loop": "void h() {{ for (;;) {{ {e} }} }}", "range": "void h() {{ for (auto zz : m.l) {{ {e}; (void)zz; }} }}", "switch": "void h() {{ switch (c) {{ case 1: {{ {e} }} }} }}",
    "try": "void h() {{ try {{ {e} }} catch (int) {{ {e} }} }}", "macro": "#void h() {{ {e} }}", "statement expression": "void h() {{ ({{ {e}; 1; }}); }}", "deleted base": "{K}() : QObject(nullptr), B() {{ {e} }}",
}
COMMON = r"""
namespace std { template<class T> T &&move2(T &x) { return static_cast<T &&>(x); } }
enum class E2 { A, B = 2 }; struct PP { int a, b; }; struct K2 { void g(); void e(E2); ~K2(); K2(); K2(const K2 &); K2 *n; }; template<class T> T typeid2(const T &); template<class T> void t1(); template<class T> void t2(T) { }
struct B { virtual void v(); virtual void pure() = 0; }; struct M { int i; void (*fp2)(int); void (*arr[4])(int); void (*fr)(int); QString s; QList<QString> l; QMap<QString, QString> mp; E2 e; const char *cs; };
extern bool c; extern bool (*bp)(); bool s2(); using SP = QString (QString::*)() const; extern SP sp; extern int (QString::*sp2)(int); extern QList<QString> (QList<QString>::*lp)() const; extern void (K2::*kp)(); extern K2 *k2; extern void (*fp)(); using Fpp = void (B::*)(); Fpp fpp();
#define EACH(x) x
#ifndef Q_ASSERT
#define Q_ASSERT(x) ((x) ? void(0) : void(1))
#endif
"""
BODY = ("struct {K} : QObject, B {{ Q_OBJECT public: using K = {K}; M m; int d1; {K} *k; {K} *n3; bool (K::*p2)(); void (K::*p)(); void (K::*cp)() const; int K::*d; void g(); static void s(); static QList<QString> list(); void pure() override; template<class T> void tm(T) {{ }} "
        "void operator()(); void operator()(int); int operator+(int); K &operator++(); void operator++(int); int *operator[](int); K *operator->(); operator int(); explicit operator bool() const; {f} }}; {o}")


def source(context, keep, includes):
    """(text, the line of each expression)"""
    lines, at = includes + COMMON.split("\n"), {}
    tmpl = CONTEXTS[context]
    for i in keep:
        K = "K_%d" % i
        e = EXPRS[i]
        e = e if e.endswith(("}", ";")) else e + ";"
        f, _, o = tmpl.lstrip("#").partition("|")
        t = BODY.format(K=K, f=f.format(K=K, e=e), o=o.format(K=K, e=e))
        if tmpl.startswith("#"):
            t = BODY.format(K=K, f="EACH(%s)" % f.format(K=K, e=e), o="") if "#" not in e else ""
        lines.append(t)
        at[len(lines)] = i
    return "\n".join(lines) + "\n", at
