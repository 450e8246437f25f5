"""C10: the edits of every check, applied to every case up to a bound, give a program that compiles and that the check has nothing to fix in."""
import concurrent.futures, itertools, re, sys
import vbuild, corpus, fixes
from drv import NPROC, Pool
from report import Check

# statement contexts of an expression E
EXPR = ["auto x = #; use(x);", "return (void)#;", "use(!#);", "use(# + 1);", "use((#));", "use(#);", "if (#) use(1);", "while (#) { break; }", "use(cond ? # : #);", "#;", "use(MAC(#));", "MAC(use(#));", "auto x{#}; use(x);", "auto l = [&] { return #; }; use(l());", "const auto &x = #; use(x);", "auto l = [&](auto) { return #; }; l(1); l('a');", "use(# == #);", "use(1, #, #);", "auto x = #, y = #;", "use(QString(#));", "bool b = #; use(b);", "bool b = cond && #; use(b);", "bool b = !#; use(b);", "for (; #; ) break;", "do { } while (!#);", "use(static_cast<bool>(#));", "QString x = #; use(x);", "QString x; x = #; use(x);", "use(bool(#) ? 1 : 2);", "int x = #; use(x);", "use(# > 1 && #);", "use(int(#) * 2 - #);", "if (auto x = #; cond) use(x);", "switch (int(#)) { default: ; }", "use(/*a*/#/*b*/);", "use(\n  #\n  );", "if (!(#)) use(1);", "use(!!#);", "if (cond) #; else #;", "case_(#);", "use(&typeid(#));", "(void)sizeof(#);", "decltype(#) x = #; use(x);", "use(QVariant(#));", "[x = #] { use(x); }();", "throw #;", "std::initializer_list<QVariant>{#, #};", "use(-(#));", "use(take(#));"]
WS = [lambda e: e, lambda e: e.replace(".", " . "), lambda e: e.replace(".", "\n    ."), lambda e: e.replace(".", "/*c*/./*d*/"), lambda e: e.replace("(", " ( ").replace(")", " ) "), lambda e: e.replace("::", " :: "), lambda e: e.replace("(", "(\n").replace(",", " ,\n"), lambda e: e.replace(".", ".// c\n"), lambda e: e.replace(".", "\\\n.")]
OUTS = ["void f@() { # }", "template<class T> void f@() { # } void g@() { f@<int>(); f@<char>(); }", "struct S@ { void m() { # } };", "struct S@ { void m(); }; void S@::m() { # }", "auto l@ = [] { # };", "template<class T> struct S@ { void m() { # } }; template struct S@<int>; template struct S@<char>;", "namespace q@ { void f() { # } }", "void f@() { { { # } } }", "void f@() { if (cond) { # } else { # } }", "#define BODY@ #\nvoid f@() { BODY@ }", "#define BODY@(x) #\nvoid f@() { BODY@(1) BODY@(2) }", "void f@() { MAC(#) }", "void f@(int) { #\n}", "void f@()\n{\n#\n}", "void f@(){#}", "void f@() { switch (1) { case 1: { # } } }", "void f@() { for (;;) { # } }", "auto f@() { return [] { # }; }"]
COMMON = '''template<class... A> void use(const A &...); extern bool cond; template<class T> const T &case_(const T &); struct Any { template<class T> operator T() const; }; template<class T> T take(const T &t) { return t; }
#include <typeinfo>
#include <initializer_list>
#include <memory>
#include <QtCore/QString>
#include <QtCore/QStringList>
#include <QtCore/QByteArray>
#include <QtCore/QVariant>
#include <QtCore/QMap>
#include <QtCore/QHash>
#include <QtCore/QSet>
#include <QtCore/QVector>
#include <QtCore/QList>
#include <QtCore/QObject>
#include <QtCore/QDateTime>
#include <QtCore/QFileInfo>
#include <QtCore/QDir>
#include <QtCore/QTimer>
#include <QtCore/QPointer>
#include <QtCore/QSharedPointer>
#include <QtCore/QScopedPointer>
#include <QtCore/QSharedDataPointer>
#include <QtCore/QRegularExpression>
#include <QtCore/QPoint>
#include <QtCore/QEvent>
#include <QtCore/QStringBuilder>
#define MAC(...) __VA_ARGS__
'''
UNITS = {}
DET = r"\bmodq?\(|[^=!<>]=[^=].*\.(begin|end|find)\(|(\(\)|\]) [-+*/]?= |\+\+|--|iterator|[&*]\s*\w+ = |append|clear|swap|Swap|sort|memcpy|std::find|any_of|replace\("


def unit(check, pro, exprs=(), stmts=(), decls=(), qts=(5, 6)):
    UNITS[check] = (pro, list(exprs), list(stmts), list(decls), qts)


unit("qgetenv", "extern QByteArray ba; extern const char *cs; extern bool ok; bool *okp();", ['qgetenv("A").isEmpty()', 'qgetenv(cs).isEmpty()', 'qgetenv("A" "B").isNull()', 'qgetenv("A").toInt()', 'qgetenv(ba.constData()).toInt(&ok)', 'qgetenv((cs)).toInt(okp(), 0)', 'qgetenv(cond ? "A" : "B").toInt(nullptr)', 'qgetenv(ba).isEmpty()', '(qgetenv("A")).isEmpty()', '::qgetenv("A").toInt(nullptr, 0)', '(qgetenv("A").isNull())', 'qgetenv("A").toInt(nullptr, 10)', 'qgetenv(R"(A)").isEmpty()', 'qgetenv("A(.)").isEmpty()', 'qgetenv([] { return "A"; }()).isEmpty()', 'qgetenv(qgetenv("A").isEmpty() ? "B" : "C").isEmpty()'])
unit("qdatetime-utc", "typedef QDateTime DT; namespace NS { using ::QDateTime; }", ["QDateTime::currentDateTime().toUTC()", "QDateTime::currentDateTime().toMSecsSinceEpoch()", "QDateTime::currentDateTime().toSecsSinceEpoch()", "QDateTime::currentDateTimeUtc().toMSecsSinceEpoch()", "QDateTime::currentDateTimeUtc().toUTC()", "QDateTime::currentDateTime().toTime_t()", "::QDateTime::currentDateTime().toUTC()", "DT::currentDateTime().toUTC()", "NS::QDateTime::currentDateTime().toUTC()", "(QDateTime::currentDateTime()).toUTC()", "QDateTime::currentDateTime().toUTC().date()", "QDateTime::currentDateTime().toUTC().toMSecsSinceEpoch()", "QDateTime(QDateTime::currentDateTime().toUTC()).date()", "(QDateTime::currentDateTime().toUTC())", "QDateTime().currentDateTime().toUTC()"])
unit("qfileinfo-exists", "extern QString s; extern QDir dir; extern QFile file; extern QFileInfo fi; QFileInfo mk(const QFileInfo &); struct H { QFileInfo fi; QString n; } extern h;", ["QFileInfo(s).exists()", 'QFileInfo("x").exists()', "QFileInfo{s}.exists()", "QFileInfo(h.n).exists()", "QFileInfo(s + s).exists()", "(QFileInfo(s)).exists()", "QFileInfo(dir, s).exists()", "QFileInfo(file).exists()", "fi.exists()", "mk(QFileInfo(s)).exists()", "h.fi.exists()", "QFileInfo(QFileInfo(s).path()).exists()", "(cond ? QFileInfo(s) : QFileInfo(s + s)).exists()", "(cond ? QFileInfo(s) : fi).exists()", "QFileInfo(fi).exists()", "::QFileInfo(s).exists()", "QFileInfo::exists(s)", "[] { return QFileInfo(s); }().exists()", 'QFileInfo(cond ? s : QString("b")).exists()', 'QFileInfo(QString("a")).exists()', 'QFileInfo(QStringLiteral("a")).exists()', "QFileInfo(s.left(2)).exists()", "(QFileInfo(s) = fi).exists()", "static_cast<QFileInfo>(s).exists()", "(QFileInfo)s .exists()", "std::make_unique<QFileInfo>(s)->exists()", "QFileInfo(mk(QFileInfo(s))).exists()"])
unit("qcolor-from-literal", "#include <QtGui/QColor>\n#include <QtGui/QBrush>\n#include <QtGui/QPen>\nvoid col(const QColor &); void col2(int, const QColor & = QColor(\"#123\"), int = 1); struct HC { QColor a, b; };", ['QColor(%s)' % c for c in ('"#123"', '"#102030"', '"#80102030"', '"#111222333"', '"#111122223333"', '"#00000000"', '"#000"', '"red"', '"#12"', '"#12x"', '"#" "123"', '"#fF0"')] + ['QColor::fromString(%s)' % c for c in ('"#123"', '"#80102030"', 'QStringLiteral("#80102030")')] + ["QColor{%s}" % c for c in ('"#123"', '"#80102030"')] + ["static_cast<QColor>(\"#80102030\")", "(QColor)\"#80102030\"", "QColor((\"#80102030\"))", "(QColor)\"#102030\"", "QColor(MAC(\"#102030\"))"],
     ["QColor c(%s);", "QColor c = %s;", "QColor c{%s};", "QColor c = {%s};", "col(%s);", "QColor c; c = %s;", "QColor a[] = {%s, %s};", "HC h = {%s, %s};", "HC h{.a = %s};", "QColor *p = new QColor(%s);", "QBrush b(QColor(%s));", "QColor c; c.setNamedColor(%s);", "QList<QColor> l; l << %s; l.append(%s);", "QColor c = cond ? %s : QColor();", "col(cond ? QColor(%s) : QColor(%s));", "auto l = []() -> QColor { return %s; };", "QMap<int, QColor> m{{1, %s}};", "col2(1, %s, 2);", "auto l = [](QColor c = %s) { };", "static const QColor c(%s), d(%s);", "const QColor &c = %s;", "std::make_unique<QColor>(%s);", "col({%s});", "QPen p(QColor{%s}, 2);"])
UNITS["qcolor-from-literal"][2][:] = [s.replace("%s", c) for s in UNITS["qcolor-from-literal"][2] for c in ('"#123"', '"#80102030"', '"#00000000"', '"#111222333"', 'MAC("#80102030")')]
cont = "extern QList<int> l; extern QList<int> *pl; extern QVector<QString> v; extern QMap<int, int> m; extern QHash<QString, int> h; extern QMultiMap<int, int> mm; extern QMultiHash<int, int> mh, *pmh; extern QStringList sl; extern QSet<int> st; extern QString s; struct Hc { QList<int> l; QMap<int,int> m; QList<int> g() const; Hc *n; QList<int> *p; } extern hc, *phc; QList<int> mkl(); QList<QList<int>> &ll(); QList<int> *gp(); std::unique_ptr<QList<int>> up(); extern int i;"
unit("isempty-vs-count", cont, [o + a + n for o, a in (("l", "."), ("pl", "->"), ("v", "."), ("m", "."), ("h", "."), ("sl", "."), ("st", "."), ("hc.l", "."), ("phc->l", "."), ("hc.p", "->"), ("mkl()", "."), ("(l)", "."), ("(*pl)", "."), ("(l + l)", "."), ("gp()", "->"), ("(cond ? l : mkl())", "."), ("ll()[0]", "."), ("up()", "->"), ("(pl + 1)", "->"), ("QList<int>{1, 2}", "."), ("(&l)", "->"), ("hc.n->n->l", "."), ("static_cast<QList<int> &>(l)", "."), ("phc->g()", "."), ("this_->l", ".")) for n in ("size()", "count()", "count(1)", "length()", "size() > 0", "count() == 0", "size() < 1", "size() >= 0", "count() != 0")] + ["m.count(1)", "h.count(s)", "mm.count(1)", "mm.count(1, 2)", "mh.count(1, i + 1)", "pmh->count(1, 2)", "pmh->count(i)", "pmh->size()", "0 < l.size()", "l.size() == 0u", "l.size() == i", "l.size() > 0 && m.size()", "(l.size())", "(l.size() == 0)"],
     ["QList<int> z; if (!z.size() && !z.count()) use(z);", "if (mkl().size() > 0) use(1);", "if (mkl().size() == 0) use(1);", "if (up()->size() == 0) use(1);", "if (gp()->size() > 0) use(1);", "while (mkl().count() < 1 || cond) break;", "struct D : QList<int> { bool f() { return size(); } bool g() { return !this->count(); } bool h() { return QList<int>::size(); } }; D d; use(bool(d.size()));", "if (not l.size()) use(1);", "bool b = l.size() and not m.count(); use(b);", "if (int n = l.size()) use(n);", "if (!  l  .  size ( )) use(1);", "return l.size() ? void() : use(1);", "assert_(!l.count());", "Q_ASSERT(!l.count()); Q_ASSERT(l.count());", "if (l.size(), l.size()) use(1);", "bool a[] = {bool(l.size()), !l.size()}; use(a);", "if (MAC(!)l.size()) use(1);"])
unit("use-arrow-operator-instead-of-data", "struct Ob : QObject { int x; void go(int = 0) const; Ob *n() const; int *begin() const; }; extern QSharedPointer<Ob> sp; extern QPointer<Ob> qp; extern QScopedPointer<Ob> scp; struct Sd : QSharedData { int x; void go(); void gc() const; }; extern QSharedDataPointer<Sd> sd; struct Hp { QSharedPointer<Ob> p; QSharedPointer<Ob> g() const; Hp *n; } extern hp, *php; QSharedPointer<Ob> mk(); extern QSharedPointer<Ob> *psp; extern QList<QSharedPointer<Ob>> lsp; extern int i;",
     [o + ".data()" + n for o in ("sp", "qp", "scp", "hp.p", "php->p", "mk()", "(sp)", "(*psp)", "lsp[0]", "hp.g()", "hp.n->p", "lsp.first()") for n in ("->go()", "->go(1)", "->n()", "->n()->n()", "->x", "", "->n()->go()", "->objectName().isEmpty()", "->Ob::go()")] + ["psp->data()->go()", "(*sp.data()).go()", "(sp.data())->go()", "((sp.data()))->n()", "static_cast<QObject *>(sp.data())->objectName()", "static_cast<Ob *>(sp.data())->n()", "static_cast<QObject *>(qp.data())->deleteLater()", "(sp.data() + 1)->go()", "sp.data()[0].go()", "sd.data()->go()", "sd.data()->gc()", "sp.QSharedPointer<Ob>::data()->go()", "reinterpret_cast<Ob *>(sp.data())->n()", "dynamic_cast<Ob *>(qp.data())->n()", "const_cast<Ob *>(sp.data())->n()", "(cond ? sp.data() : nullptr)->n()", "(Ob *)sp.data()", "((Ob *)sp.data())->n()", "sp.data()->go(sp.data()->x)", "sp.data()->n()->go(qp.data()->n()->x)", "qobject_cast<QObject *>(qp.data())->objectName()", "(i, sp.data())->n()", "sp->n()", "(&*sp.data())->n()"],
     ["for (int c : {sp.data()->n()->x}) use(c);", "int z = sp.data()->n()->x; use(z);", "sp.data()  ->  n();", "sp .  data ( )->n();", "sp./*a.b*/data()/*c*/->n();", "QObject::connect(sp.data(), &QObject::destroyed, sp.data(), &QObject::deleteLater);", "connect_(sp.data()->n(), 1.5);"])
unit("use-chrono-in-qtimer", "#include <chrono>\nusing namespace std::chrono_literals; extern QTimer t, *pt; extern QObject *o; struct Ht { QTimer t; QTimer *p; } extern ht; extern int i; struct R : QObject { void sl(); } extern *r; enum { EN = 1000 };",
     [], [c.replace("%", n) for c in ("t.start(%);", "pt->start(%);", "t.setInterval(%);", "QTimer::singleShot(%, o, SLOT(deleteLater()));", "QTimer::singleShot(%, o, &QObject::deleteLater);", "QTimer::singleShot(%, [] { });", "ht.p->setInterval((%));", "t.start( % );", "t.start(MAC(%));", "QTimer::singleShot(%, Qt::CoarseTimer, o, SLOT(deleteLater()));", "o->startTimer(%);", "t.start(%); t.start(%);", "cond ? t.start(%) : t.setInterval(%);", "QTimer::singleShot(%, r, &R::sl);", "QTimer::singleShot(%, r, [] { QTimer::singleShot(%, [] { }); });") for n in ("0", "1", "1000", "60 * 1000", "3600000", "1500", "2 * 3600 * 1000", "-1", "-1000", "0x3e8", "1000 / 3", "i", "i * 1000", "1000 + 1", "(1000)", "1000 * (2)", "EN", "(2 * 1000)", "60'000", "1000u", "1000 * 0", "3600 * 1000 * 24 * 30", "'a'", "100.", "int(100)", "-(5)", "1 - 1", "cond ? 1 : 2", "5 / 2 * 1000", "1000LL", "1000/**/*/**/2", "\n1000\n*2")])
unit("qbytearray-conversion-to-c-style", "extern QByteArray ba, *pba; QByteArray mk(); void cs(const char *); void vo(const void *); struct Hb { QByteArray b; QByteArray g() const; Hb *n; } extern hb; extern QString s; struct Ct { Ct(const char *); }; extern const char *g;", [],
     [c.replace("%", e) for c in ("cs(%);", "const char *x = %; use(x);", "vo(%);", "const void *x = %; use(x);", "const char *x; x = %; use(x);", "Ct c(%);", "Ct c{%};", "const char *a[] = {%, %}; use(a);", "auto l = []() -> const char * { return %; };", "cs(MAC(%));", "static_cast<const char *>(%);", "(const char *)%;", "cs(cond ? % : nullptr);", "cs(cond ? % : g);", "QString::fromUtf8(%);", "new Ct(%);", "if (%) use(1);", "use(! %);", "use(%[0]);", "use(g == %);", "use(*%);", "QString x(%); use(x);", "cs((%));", "qstrlen(%);", "reinterpret_cast<const uchar *>((const char *)%);", "strlen(%);", "printf(\"%s\", (const char *)%);", "QLatin1String x(%); use(x);", "use(% + 1);") for e in ("ba", "mk()", "hb.b", "hb.g()", "*pba", "(ba)", "ba.trimmed()", "s.toUtf8()", "(ba + ba)", "QByteArray()", "QByteArray(\"a\")", "QByteArrayLiteral(\"a\")", "hb.n->b", "(cond ? ba : mk())", "ba + ba", "QByteArray{}", "pba[0]", "ba += ba", "QByteArray(\"a\" \"b\")")])
unit("qstring-ref", "extern QString s, q, *ps; QString mk(); struct Hs { QString m; QString g() const; Hs *n; } extern hs; extern int i; extern bool ok; extern QChar c;",
     [o + "." + f + "." + t for o in ("s", "(s)", "(*ps)", "hs.m", "hs.n->m", "mk()", "QString()", "(s + q)", "hs.g()", "(cond ? s : q)") for f in ("mid(5)", "mid(i, 2)", "left(1)", "right(3)", "mid(s.left(1).size())") for t in ("toInt()", "toInt(&ok)", "compare(q)", "contains(c)", "startsWith(q)", "isEmpty()", "toDouble()", "trimmed()", "toLatin1()", "size()", "indexOf(q.mid(1))", "toString()", "count()", "lastIndexOf(c, -1)", "length()", "isNull()", "endsWith(QLatin1String(\"a\"))", "toLower()")] + ["ps->mid(1).toInt()", "ps->left(2).isEmpty()", "hs.n->m.mid(1).mid(2).toInt()", "s.mid(1).trimmed().toInt()", "s.split(c).first().mid(1).toInt()", "s.toUtf8().mid(1).toInt()"], ["int z = s.mid(1).toInt() + q.left(2).toInt(); use(z);", "if (s.mid(1).startsWith(q.left(1))) use(1);", "struct D : QString { int f() { return mid(1).toInt(); } int g() { return this->left(1).toInt(); } }; use(D().f());", "QString x = s.mid(1).trimmed(); use(x);"], qts=(5,))
KW = "struct B%(n)s : QObject { Q_OBJECT public: B%(n)s(QObject *p = nullptr) : QObject(p) { } Q_SIGNALS: void sig(int = 0); }; "
unit("qt-keyword-emit", "struct EB : QObject { void sig(int = 0); }; extern EB eb;", [], ["emit eb.sig();", "emit eb.sig(1); emit eb.sig(2);", "Q_EMIT eb.sig();", "cond ? emit eb.sig() : emit eb.sig();", "emit(eb.sig());", "if (cond) emit eb.sig();", "emit\neb.sig();", "auto l = [] { emit eb.sig(); }; l();", "MAC(emit eb.sig());", "emit /*c*/ eb.sig();", "for (; cond; emit eb.sig()) ;", "emit emit eb.sig();"], ["#define EM@ emit\nvoid f@() { EM@ eb.sig(); }", "#define EM@(x) emit x\nvoid f@() { EM@(eb.sig()); }", "#define EM@(x) x\nvoid f@() { EM@(emit eb.sig()); }", "struct K@ : EB { void f() { emit sig(); this->sig(); } };"])
unit("qt-keywords", "struct EB : QObject { void sig(int = 0); }; extern EB eb; extern QStringList sl; extern QList<int> l;", [], ["emit eb.sig();", "foreach (const QString &x, sl) use(x);", "foreach (int x, l) { use(x); }", "foreach(int x, l) foreach (int y, l) use(x, y);", "forever { break; }", "forever break;", "Q_FOREACH (int x, l) use(x);", "Q_FOREVER { break; }", "if (cond) foreach (int x, l) use(x); else forever { break; }", "foreach (int x, QList<int>() << 1 << 2) use(x);", "MAC(foreach (int x, l) use(x);)", "QList<int>::const_iterator it; foreach (int x, l) { if (x) continue; emit eb.sig(x); }"],
     ["struct K@ : QObject { Q_OBJECT public slots: void a(); signals: void b(); private slots: void c(); protected slots: void d(); public Q_SLOTS: void e(); Q_SIGNALS: void g(); };", "class K@ : public QObject {\npublic slots:\nvoid a();\nsignals:\nvoid b();\n};", "struct K@ { public  slots : void a(); signals : void b(); };", "#define SI@ signals\nstruct K@ : QObject { SI@: void b(); };", "#define SL@ public slots\nstruct K@ : QObject { SL@: void b(); };"])
unit("sanitize-inline-keyword", "", [], [], ["class __attribute__((visibility(\"default\"))) K@ { %s }; %s" % (a, b) for a, b in [("void m();", "inline void K@::m() { }"), ("int m() const; int n();", "inline int K@::m() const { return 1; } inline int K@::n() { return 1; }"), ("virtual void m();", "inline void K@::m() { }"), ("static int m(int);", "inline int K@::m(int) { return 1; }"), ("inline void m();", "inline void K@::m() { }"), ("inline void m();", "void K@::m() { }"), ("K@(); ~K@();", "inline K@::K@() { } inline K@::~K@() { }"), ("explicit K@(int); operator int() const; K@ &operator=(const K@ &);", "inline K@::K@(int) { } inline K@::operator int() const { return 1; } inline K@ &K@::operator=(const K@ &) { return *this; }"), ("[[nodiscard]] int m();", "inline int K@::m() { return 1; }"), ("const int &m();", "inline const int &K@::m() { static int i; return i; }"), ("template<class T> void m(T);", "template<class T> inline void K@::m(T) { }"), ("void m(), n();", "inline void K@::m() { } inline void K@::n() { }"), ("Q_INVOKABLE void m();", "inline void K@::m() { }"), ("constexpr int m();", "inline constexpr int K@::m() { return 1; }"), ("void m();", "void inline K@::m() { }"), ("auto m() -> int;", "inline auto K@::m() -> int { return 1; }"), ("void operator()(); int operator[](int); bool operator==(const K@ &) const;", "inline void K@::operator()() { } inline int K@::operator[](int) { return 1; } inline bool K@::operator==(const K@ &) const { return true; }"), ("struct N { void m(); };", "inline void K@::N::m() { }"), ("public: void m(); private: void n();", "inline\nvoid K@::m() { }\ninline/**/void K@::n() { }"), ("MAC(void m();)", "inline void K@::m() { }"), ("void m();", "MAC(inline void K@::m() { })"), ("void m();", "inline void\nK@::m() noexcept(false) { }"), ("friend void fr@(); void m();", "inline void fr@() { } inline void K@::m() { }"), ("void m() const; void m();", "inline void K@::m() const { } inline void K@::m() { }"), ("QString m(const QString &s = QString());", "inline QString K@::m(const QString &s) { return s; }"), ("static inline int v = 1; void m();", "inline void K@::m() { }"), ("void m();", "extern \"C++\" inline void K@::m() { }"), ("Q_DECL_DEPRECATED void m();", "inline void K@::m() { }"), ("void m();", "Q_ALWAYS_INLINE void K@::m() { }"), ("void m();", "__attribute__((noinline)) inline void K@::m() { }")]] + ["namespace n@ { class __attribute__((visibility(\"default\"))) K { void m(); }; } inline void n@::K::m() { }", "template<class T> class __attribute__((visibility(\"default\"))) K@ { void m(); }; template<class T> inline void K@<T>::m() { } template class K@<int>;", "class K@ { void m(); }; inline void K@::m() { }"])
unit("auto-unexpected-qstringbuilder", "#define QT_USE_QSTRINGBUILDER\n", ["1"], ["auto x = s + q; use(x);", "const auto x = s + q + s; use(x);", "auto x = s + q, y = q + s; use(x, y);", "const auto &x = s + q; use(x);", "auto &&x = s + q; use(x);", "auto l = [] { return s + q; }; use(l());", "auto l = []() -> QString { return s + q; }; use(l());", "static auto x = s + q; use(x);", "static const auto x = s + q; use(x);", "auto const x = s + q; use(x);", "auto x(s + q); use(x);", "auto x{s + q}; use(x);", "auto x = QString(s + q); use(x);", "for (auto x = s + q; ; ) { use(x); break; }", "if (auto x = s + q; cond) use(x);", "auto x = QByteArray() + b; use(x);", "auto x = b + \"a\" + b; use(x);", "auto x = b + s; use(x);", "decltype(auto) x = s + q; use(x);", "auto l = [&] { return s + q + s; }(); use(l);", "auto l = [&]() { if (cond) return s + q; return q + s; }; use(l());", "auto x = (s + q); use(x);", "auto x = s % q; use(x);", "MAC(auto x = s + q;) use(x);", "auto x = MAC(s + q); use(x);", "const   auto\nx = s + q; use(x);", "auto l = [] (int) mutable { return s + q; }; use(l(1));", "auto x = \"a\" + s; use(x); auto y = x; use(y);", "const auto x = s + QLatin1String(\"a\") + QChar('b'); use(x);", "[[maybe_unused]] auto x = s + q;", "constexpr int z = 1; auto x = s + q; use(x, z);", "auto *px = new auto(s + q); use(px);", "auto [x, y] = std::make_pair(s, q); use(x);", "thread_local auto x = s + q; use(x);"], ["static auto v@ = s + q;", "struct S@ { static inline const auto v = s + q; };", "template<class T> void f@() { auto x = s + q; use(x); } void g@() { f@<int>(); f@<char>(); }", "auto f@() { return s + q; }", "auto f@(auto t) { auto x = s + t; use(x); } void g@() { f@(q); f@(s); }"])
unit("range-loop-reference", "struct Big { int a[100]; ~Big(); Big(); Big(const Big &); void mut(); bool c() const; int m; }; extern QList<Big> lb; const QList<Big> &clb(); QList<QString> ms(); extern std::initializer_list<Big> ib; extern Big ab[3]; extern QMap<int, Big> mb; extern QStringList sl; using BT = Big;", [],
     ["for (%s : %s) %s" % (d, c, b) for d in ("Big x", "const Big x", "auto x", "const auto x", "Big  x", "const Big& x", "auto&x", "Big const x", "auto const x", "::Big x", "BT x", "struct Big x", "const ::Big\nx", "Big/*c*/x", "const Big /*c*/ x", "[[maybe_unused]] Big x", "[[maybe_unused]] const auto x", "volatile Big x", "MAC(Big) x", "MAC(Big x)", "register_ Big x", "Big x [[maybe_unused]]", "Big(x)", "decltype(lb.first()) x", "typename std::decay<Big>::type x") for c in ("lb", "clb()", "ib", "ab", "mb") for b in ("use(x);", "{ x.mut(); }", "{ use(x.m); }", "{ x.m = 1; }", ";")] + ["for (QString x : sl) use(x);", "for (const QString x : ms()) use(x);", "for (auto x : ms()) { x = x + x; use(x); }", "foreach (Big x, lb) use(x);", "foreach (const Big x, lb) use(x);", "foreach (QString x, sl) use(x);", "Q_FOREACH (const QString x, ms()) { use(x); }", "for (auto [a, b] : QList<QPair<QString, QString>>()) use(a, b);", "for (const auto [a, b] : QList<QPair<QString, QString>>()) use(a, b);", "for (Big x : lb) for (Big y : lb) use(x, y);", "for (auto n = 1; Big x : lb) use(x, n);", "MAC(for (Big x : lb) use(x);)"])
unit("range-loop-detach", "extern QList<int> l, *pl; extern QVector<QString> v; QList<int> mk(); QList<int> &mr(); const QList<int> &mc(); struct Hl { QList<int> l; QList<int> *p; void f(); QList<int> g(); Hl *n; QList<int> &r(); } extern hl; extern const QList<int> cl; extern QMap<int, int> m; extern QString s; extern QHash<int, QList<int>> hh; extern QSet<int> st; extern QByteArray ba; using namespace std;", [],
     ["for (%s : %s) use(x);" % (d, c) for d in ("int x", "const auto &x", "auto x", "auto &x", "const int &x", "auto &&x") for c in ("l", "*pl", "mk()", "mr()", "mc()", "hl.l", "*hl.p", "hl.g()", "cl", "hl.n->l", "(l)", "((l))", "m", "s", "hh[1]", "st", "ba", "pl[0]", "hl.r()", "cond ? l : *pl", "(cond ? l : *pl)", "MAC(l)", "qAsConst(l)", "std::as_const(l)", "(*pl)", "l /*c*/", "static_cast<QList<int> &>(l)", "static_cast<const QList<int> &>(l)", "*&l", "l = mk()", "(mk(), l)", "hh.first()", "const_cast<QList<int> &>(cl)", "QList<int>() << 1", "l << 2", "move(l)", "l, mk()")] + ["for (auto &x : l) x = 1;", "auto k = mk(); for (auto x : k) use(x);", "QList<int> k; for (auto x : k) use(x);", "QList<int> k; use(k); for (auto x : k) use(x);", "const auto k = mk(); for (auto x : k) use(x);", "for (auto x : l) for (auto y : l) use(x, y);", "MAC(for (auto x : l) use(x);)", "auto la = [&](QList<int> p) { for (auto x : p) use(x); }; la(l);", "for (auto n = 1; auto x : l) use(x, n);", "for (auto x : l)\n{ use(x); }", "for (auto x :l) use(x);", "for (auto x:l) use(x);", "for (auto x : \n l \n) use(x);"])
det = "extern QList<int> l, *pl; extern QMap<int, QString> m; extern QVector<QString> v; extern QHash<QString, QList<int>> h; extern QString s; extern QByteArray ba; extern QStringList sl; QList<int> mk(); QMap<int, QString> mm(); QString ms(); QStringList msl(); QByteArray mb(); struct Hl { QList<int> l; QMap<int, QString> m; QString s; void f(); QList<int> g(); Hl *n; QList<int> &r(); const QList<int> &c(); } extern hl; extern int i; void mod(int &); void modq(QString &);"
unit("detaching-temporary", det, [o + "." + t for o in ("mk()", "hl.g()", "hl.n->g()", "(mk())", "QList<int>{1}", "(mk() + l)", "h.values(s).first()", "mm().keys()", "mm().values()", "QString(s).split(QLatin1Char('a'))", "msl()", "(cond ? mk() : l)", "hl.r()", "hl.c()", "l", "mm().value(1)", "sl.filter(s)") for t in ("first()", "last()", "begin()", "end()", "front()", "back()", "at(0)", "value(0)", "size()", "data()", "constData()", "rbegin()", "isEmpty()", "[0]".replace("[", "operator[](").replace("]", ")"))] + ["mk()[0]", "mm()[1]", "msl()[0]", "mk()[i + 1]", "ms()[0]", "mb()[0]", "mb().data()", "ms().data()", "ms().begin()", "mm().begin()", "mm().find(1)", "mm().lowerBound(1)", "mm().first()", "mm().last()", "mm().first().size()", "mm().end()", "mm().insert(1, s)", "msl().first().size()", "(mk())[0]", "mk().first() + mk().last()", "*mk().begin()", "*(mk().end() - 1)", "*mm().find(1)", "h.value(s)[0]", "h.values()[0][1]", "h.keys().first()", "mm().constFind(1)", "hl.g()[0]", "QVector<QString>()[0]", "h.value(s, l).first()", "QSet<int>().begin()", "QSet<int>().find(1)", "mk().operator[](0)"],
     ["mk().first() = 1;", "mk()[0] = 1;", "mk()[0]++;", "mod(mk().first());", "mod(mk()[0]);", "int &x = mk().first(); use(x);", "auto &x = mk().first(); use(x);", "const int &x = mk().first(); use(x);", "QList<int>::iterator it = mk().begin(); use(it);", "QList<int>::const_iterator it = mk().begin(); use(it);", "auto it = mk().begin(); use(it);", "std::sort(mk().begin(), mk().end());", "auto x = std::find(mk().begin(), mk().end(), 1); use(x);", "std::any_of(mk().begin(), mk().end(), [](int) { return true; });", "QString &x = msl().first(); use(x);", "msl().first().append(s);", "msl()[0].append(s);", "msl().first().clear();", "msl().last() += s;", "hl.r().first() = 2;", "hl.r()[0] = 1;", "char *p = mb().data(); use(p);", "memcpy(mb().data(), \"a\", 1);", "QChar c = ms()[0]; use(c);", "ms()[0] = QLatin1Char('a');", "QMap<int, QString>::iterator it = mm().find(1); use(it);", "if (mm().find(1) != mm().end()) use(1);", "if (mk().begin() == mk().end()) use(1);", "int *p = &mk().first(); use(p);", "int *p = mk().data(); use(p);", "std::swap(mk().first(), i);", "for (auto it = mk().begin(); it != mk().end(); ++it) use(*it);", "use(mm().first().toInt() + mm()[1].toInt());", "MAC(use(mk().first()));", "use(MAC(mk()).first());", "use(mk().MAC(first)());", "modq(mm().first());", "const auto &x = mk()[0]; use(x);", "return use(mk()[0]);", "auto l2 = [] { return mk().first(); }; use(l2());", "mk().last() += mk().first();", "--mk().first();", "auto &&x = mk().first(); use(x);"])
unit("detaching-member", det + "struct DM { QList<int> l; QMap<int, QString> m; QStringList sl; QByteArray ba; QString s; QHash<int, int> h; DM *n; QList<int> *pl; void go(); void gc() const; }; extern DM dm;", [], [], ["struct K@ { QList<int> l; QMap<int, QString> m; QStringList sl; QByteArray ba; QString s; K@ *n; QList<int> *pl; void f() { %s } };" % t for t in ("l.first();", "l[0];", "use(l.first());", "use(l[0]);", "l[0] = 1;", "l.first() = 1;", "use(sl.first());", "sl.first().append(s);", "sl[0] = s;", "use(m.first());", "use(m[1]);", "use(*m.begin());", "use(*l.begin());", "auto it = l.begin(); use(it);", "for (auto it = l.begin(); it != l.end(); ++it) use(*it);", "use(l.front(), l.back());", "use(*m.find(1));", "if (m.find(1) == m.end()) use(1);", "mod(l.first());", "mod(l[0]);", "int &x = l.first(); use(x);", "const int &x = l.first(); use(x);", "auto &x = l.last(); use(x);", "use(l.last() + l[1]);", "use(this->l.first());", "use(n->l.first());", "use((*n).l[0]);", "use(pl->first());", "use((*pl)[0]);", "l.first()++;", "++l[0];", "l.last() += 1;", "use(&l.first());", "int *p = l.data(); use(p);", "use(l.data());", "char *p = ba.data(); use(p);", "use(ba.data());", "use(ba[0]);", "ba[0] = 'a';", "use(s[0]);", "s[0] = QLatin1Char('a');", "std::sort(l.begin(), l.end());", "std::find(l.begin(), l.end(), 1);", "use(std::count(l.begin(), l.end(), 1));", "m.insert(1, s);", "use(l.at(0));", "MAC(use(l.first()));", "use(MAC(l).first());", "auto la = [this] { return l.first(); }; use(la());", "auto la = [&] { return l[0]; }; use(la());", "use(l . first ( ));", "use(l\n.first());", "use(l [ 0 ]);", "use(sl[0].size());", "use(sl.first().size());", "QString &x = sl[0]; x = s;", "QString x = sl[0]; use(x);", "auto x = sl[0]; use(x);", "return use(m[1]);", "QMap<int, QString>::iterator it = m.begin(); use(it);", "QMap<int, QString>::const_iterator it = m.begin(); use(it);", "l.erase(l.begin());", "l.erase(l.begin(), l.end());", "use(cond ? l.first() : l[1]);", "std::swap(l[0], l[1]);", "std::swap(l.first(), l.last());", "use(sl.first() + sl.last());", "sl.first() = sl.last();", "sl[0] += sl[1];", "l[l.first()] = l[0];", "l[0] = l[1] = 2;", "qSwap(sl[0], sl[1]);", "l[0] |= 1;", "sl.last().clear();", "sl[0].remove(1, 1);", "m[1].clear();", "m[1].size();", "m.first().size();", "sl.first().replace(s, s);")])
unit("copyable-polymorphic", "", [], [], ["struct K@ { virtual void m(); };", "class K@ { public: virtual ~K@(); };", "class K@ { virtual void m(); };", "struct K@\n{\n    virtual void m();\n};", "struct K@ { K@(); virtual void m(); };", "struct K@ { K@(int = 0); virtual void m(); };", "struct K@ { K@() = default; virtual void m(); };", "struct K@ { K@() = delete; virtual void m(); };", "struct K@ { explicit K@(int); virtual void m(); };", "struct K@ { K@(const K@ &) = delete; virtual void m(); };", "struct K@ { K@(const K@ &); virtual void m(); };", "struct K@ { K@ &operator=(const K@ &) = delete; virtual void m(); };", "struct K@ { K@(K@ &&); virtual void m(); };", "struct K@ { private: virtual void m(); public: int a; };", "class K@ { int a; protected: virtual void m(); private: int b; };", "struct L@ { virtual void m(); }; struct K@ : L@ { void m() override; };", "struct L@ { virtual void m(); }; struct K@ : L@ { };", "struct L@ { virtual void m(); }; struct K@ final : L@ { int a; };", "namespace n@ { struct K { virtual void m(); }; }", "struct O@ { struct K { virtual void m(); }; };", "template<class T> struct K@ { virtual void m(); };", "template<class T> struct K@ { virtual void m(); }; K@<int> *p@; template struct K@<char>;", "template<class T> struct K@ { }; template<> struct K@<int> { virtual void m(); };", "void f@() { struct K { virtual void m() { } }; }", "struct K@ { virtual void m(); int a = 1; }; struct J@ : K@ { int b; };", "struct K@ { virtual void m(); } k@;", "struct K@ { virtual void m(); }; K@ k@; K@ *p@ = new K@;", "struct K@ { virtual void m(); }; K@ k@ = K@();", "struct K@ { virtual void m(); }; K@ k@{};", "struct K@ { virtual void m(); }; void f@(K@ k); ", "struct K@ { virtual void m(); }; void f@(const K@ &a) { K@ b(a); b.m(); }", "struct K@ { virtual void m(); K@ clone() const { return *this; } };", "#define CL@ struct K@ { virtual void m(); };\nCL@", "#define CL@(N) struct N { virtual void m(); };\nCL@(K@)", "MAC(struct K@ { virtual void m(); };)", "#define END@ };\nstruct K@ { virtual void m(); END@", "struct K@ { virtual void m(); // c\n};", "struct K@ { virtual void m(); /* } */ };", "class K@ : public QObject { virtual void m(); };", "class K@ : public QEvent { public: K@() : QEvent(QEvent::User) { } virtual void m(); };", "struct L@ { virtual void m(); protected: L@(const L@ &); }; struct K@ : L@ { };", "struct K@ { protected: K@(const K@ &); K@ &operator=(const K@ &); public: virtual void m(); };", "struct K@ { virtual void m() = 0; };", "struct L@ { virtual void m() = 0; }; struct K@ : L@ { void m() override; K@(int); };", "struct K@{virtual void m();};", "struct K@ { virtual void m();\n#ifdef X\n int a;\n#endif\n};", "struct L@ { virtual void m(); L@(int); }; struct K@ : L@ { using L@::L@; };", "struct K@ { int a = 1; K@(int b) : a(b) { } virtual void m(); }; struct J@ : K@ { J@() : K@(2) { } void m() override; };", "union U@ { int a; }; struct K@ { U@ u; virtual void m(); };", "enum { E@ }; struct K@ { virtual operator int() const; };", "struct K@ { template<class T> K@(T); virtual void m(); };"])
unit("missing-qobject-macro", "", [], [], ["struct K@ : QObject { };", "class K@ : public QObject { int a; };", "class K@ : public QObject\n{\npublic:\n    K@();\n};", "class K@ : public QObject {public: K@();};", "class K@ : public QObject {int a;};", "class K@ : public QObject {\n};", "class K@ : public QObject{};", "class K@ : public QObject { Q_OBJECT };", "struct L@ : QObject { Q_OBJECT }; struct K@ : L@ { };", "namespace n@ { struct K : QObject { }; }", "struct O@ { struct K : QObject { }; };", "void f@() { struct K : QObject { }; }", "template<class T> struct K@ : QObject { };", "class K@ : public QObject { public: explicit K@(QObject *p) : QObject(p) { } private: int a; };", "class K@ : public QTimer { };", "class K@ final : public QObject { };", "#define CL@ struct K@ : QObject { };\nCL@", "class K@ : public QObject // {\n{ };", "class K@ : public QObject /* { */ { };", "class __attribute__((visibility(\"default\"))) K@ : public QObject { };", "struct alignas(16) K@ : QObject { };", "struct M@ { int a{1}; }; struct K@ : QObject, M@ { M@ m{2}; };", "struct K@ : QObject { K@() { } };", "struct K@ : QObject {struct N { };};", "struct K@ : QObject {K@();};", "struct K@ : QObject {~K@();};", "class K@ : public QObject {\n// c\nint a; };"])
OVC = "struct Ov : QObject { Q_OBJECT public: int a; Ov(QObject * = nullptr); Q_SIGNALS: void s1(int); void s0(); void so(int); void so(const QString &); void sc(int) const; public Q_SLOTS: void t1(int); void t0(); void to(int); void to(const QString &); void to(); void tc() const; void tco(int) const; void tco(int); static void st(int); static void sto(int); static void sto(); }; extern Ov *o, ob; struct Dv : Ov { void to(); void t1(int); } extern *dv; typedef int IntT;"
unit("modernize-overloaded-connects", OVC, [], ["QObject::connect(o, %s, o, %s);" % (a, b) for a in ("&Ov::s1", "qOverload<int>(&Ov::s1)", "QOverload<int>::of(&Ov::s1)", "static_cast<void (Ov::*)(int)>(&Ov::s1)", "qOverload<int>(&Ov::so)", "QOverload<int>::of(&Ov::so)", "static_cast<void (Ov::*)(int)>(&Ov::so)", "QOverload<IntT>::of(&Ov::so)", "QOverload< int >::of( &Ov::so )", "static_cast< void (Ov::*) (int) >( &Ov::so )", "(qOverload<int>(&Ov::s1))", "static_cast<void (Ov::*)(int) const>(&Ov::sc)", "QNonConstOverload<int>::of(&Ov::so)", "MAC(qOverload<int>(&Ov::s1))") for b in ("&Ov::t1", "qOverload<int>(&Ov::t1)", "QOverload<int>::of(&Ov::to)", "static_cast<void (Ov::*)(int)>(&Ov::to)", "qOverload<>(&Ov::to)", "QOverload<>::of(&Ov::to)", "QOverload<>::of(&Ov::t0)", "static_cast<void (Ov::*)()>(&Ov::to)", "static_cast<void (Ov::*)()>(&Ov::t0)", "qConstOverload<int>(&Ov::tco)", "QConstOverload<int>::of(&Ov::tco)", "static_cast<void (Ov::*)(int) const>(&Ov::tco)", "static_cast<void (Ov::*)() const>(&Ov::tc)", "static_cast<void (*)(int)>(&Ov::st)", "static_cast<void (*)(int)>(&Ov::sto)", "qOverload<int>(&Ov::sto)", "[] { }", "QOverload<const QString &>::of(&Ov::to)", "qNonConstOverload<int>(&Ov::tco)")] + ["QObject::connect(o, QOverload<const QString &>::of(&Ov::so), o, QOverload<const QString &>::of(&Ov::to));", "QObject::connect(o, static_cast<void (Ov::*)(const QString &)>(&Ov::so), o, static_cast<void (Ov::*)(const QString &)>(&Ov::to), Qt::QueuedConnection);", "QObject::connect(&ob, static_cast<void (Ov::*)(int)>(&Ov::so), [] { });", "auto p = QOverload<int>::of(&Ov::so); use(p);", "auto p = static_cast<void (Ov::*)(int)>(&Ov::so); QObject::connect(o, p, o, &Ov::t0);", "QObject::connect(dv, &Dv::s0, dv, static_cast<void (Dv::*)()>(&Dv::to));", "QObject::connect(dv, &Dv::s0, dv, QOverload<>::of(&Dv::to));", "QObject::connect(dv, &Dv::s0, dv, qOverload<>(&Dv::to));", "QObject::connect(dv, &Dv::s1, dv, static_cast<void (Dv::*)(int)>(&Dv::t1));", "QObject::connect(dv, &Dv::s0, dv, static_cast<void (Ov::*)()>(&Ov::to));", "QObject::disconnect(o, QOverload<int>::of(&Ov::so), o, QOverload<int>::of(&Ov::to));", "QTimer::singleShot(1, o, QOverload<>::of(&Ov::to));", "QTimer::singleShot(1, o, static_cast<void (Ov::*)()>(&Ov::t0));", "QObject::connect(o, static_cast<void (Ov::*)(int)>(&Ov::so),\n    o, static_cast<void (Ov::*)(int)>(&Ov::t1));"])
unit("old-style-connect", OVC + "struct OK : Ov { void go(); }; extern QPointer<Ov> qp; extern QSharedPointer<Ov> sp; struct Hov { Ov *p; Ov v; Ov *g(); } extern hov;", [], ["QObject::%s(%s, SIGNAL(%s), %s, SLOT(%s));" % (c, a, s, b, t) for c in ("connect", "disconnect") for a in ("o", "&ob", "hov.p", "&hov.v", "hov.g()", "qp", "sp.data()") for s in ("s1(int)", "s0()", "so(int)") for b in ("o", "dv", "qp") for t in ("t0()", "t1(int)", "to()", "st(int)")] + ["QObject::connect(o, SIGNAL(s1(int)), o, SIGNAL(s0()));", "QObject::connect(o, SIGNAL(s0()), o, SLOT(nope()));", "o->connect(dv, SIGNAL(s0()), SLOT(t0()));", "QTimer::singleShot(1, o, SLOT(t0()));", "QTimer::singleShot(1, o, SLOT(to()));", "QMetaObject::Connection c = QObject::connect(o, SIGNAL(s0()), o, SLOT(t0()), Qt::QueuedConnection); use(c);", "QObject::connect(o, SIGNAL( s0 () ), o, SLOT( t0 ( ) ));", "QObject::connect(o,\n SIGNAL(s0()),\n o,\n SLOT(t0()));", "auto l = [] { QObject::connect(o, SIGNAL(s0()), o, SLOT(t0())); };", "if (cond) QObject::connect(o, SIGNAL(s0()), o, SLOT(t0()));", "QObject::connect(o, SIGNAL(s0()), o, \"1t0()\");", "MAC(QObject::connect(o, SIGNAL(s0()), o, SLOT(t0()));)", "QObject *b = o; QObject::connect(b, SIGNAL(s0()), o, SLOT(t0()));", "QObject::connect(o, SIGNAL(s1(int)), o, SLOT(deleteLater()));", "QObject::connect(o, SIGNAL(destroyed()), o, SLOT(t0()));", "QObject::connect(o, SIGNAL(destroyed(QObject*)), o, SLOT(t0()));", "QObject::connect(o, SIGNAL(objectNameChanged(QString)), o, SLOT(t0()));"], ["struct K@ : Ov { K@() { connect(this, SIGNAL(s0()), this, SLOT(t0())); connect(this, SIGNAL(s0()), SLOT(t0())); connect(o, SIGNAL(s0()), SLOT(deleteLater())); } };", "struct K@ : QObject { Q_OBJECT public: K@() { connect(o, SIGNAL(s0()), this, SLOT(mine())); connect(o, SIGNAL(s0()), SLOT(mine())); } private Q_SLOTS: void mine(); };", "namespace n@ { struct K : QObject { Q_OBJECT public: K() { connect(this, SIGNAL(sg()), SLOT(mine())); } public Q_SLOTS: void mine(); Q_SIGNALS: void sg(); }; void f(K *k) { QObject::connect(k, SIGNAL(sg()), k, SLOT(mine())); } } void g@(n@::K *k) { QObject::connect(k, SIGNAL(sg()), k, SLOT(mine())); }"])
LITS = ['"a"', '"a" "b"', '"\u00e9"', 'QLatin1String("a")', '"\\n"', '""', "'a'", 'QStringLiteral("a")', '"%1"', 'cond ? "a" : "b"', 'R"(a)"', 'QLatin1String(cond ? "a" : "b")', '("a")', 'u8"a"', 'MAC("a")', "LIT", 'QLatin1String("a" "b")', 'QLatin1String{"a"}', '"a\\"b"', 'cs', 'QString("a")', 'cond ? QLatin1String("a") : QLatin1String("b")', 'QLatin1String("\u00e9")']
unit("qstring-allocations", '#define LIT "lit"\n#define LL QLatin1String("x")\nextern const char *cs; extern QString s, *ps; QString mk(); extern QStringList sl; void ts(const QString &, int = 0); void tv(QString, QString = QString()); void ref(QString &&); struct Hs { QString a, b; }; struct Co { Co(const QString &, int = 1); Co &operator<<(const QString &); bool operator==(const QString &) const; }; extern QHash<QString, int> h; extern int i;', [],
     [c.replace("%", e) for c in ("QString x(%); use(x);", "QString x = %; use(x);", "QString x{%}; use(x);", "ts(%);", "ts(%, 1);", "tv(%, %);", "s = %;", "s += %;", "s.append(%);", "use(s == %);", "use(% == s);", "use(s != %);", "use(s < %);", "use(s + %);", "use(% + s);", "s.replace(%, %);", "use(s.contains(%));", "use(s.startsWith(%));", "use(s.indexOf(%, 1));", "sl << %;", "QStringList x{%, %}; use(x);", "QStringList x = {%}; use(x);", "sl.append(%);", "Hs x{%, %}; use(x.a);", "Hs x = {%}; use(x.a);", "auto l = []() -> QString { return %; };", "Co c(%);", "Co c{%, 2};", "new QString(%);", "QString x = QString(%); use(x);", "use(QString(%).size());", "use(QString::fromLatin1(%));", "use(QString::fromUtf8(%));", "ts(QString::fromLatin1(%));", "h[%] = 1;", "use(h.value(%));", "ts(cond ? % : s);", "QString x[] = {%, s}; use(x);", "s.isEmpty() ? ts(%) : ts(s);", "ts(QString(%) + %);", "use(s.toLower() == %);", "use(mk() == %);", "QString x = cond ? s : %; use(x);", "static const QString x = %; use(x);", "use(s.split(%));", "ts(MAC(%));", "QVariant x(%); use(x);", "ref(%);", "const QString &x = %; use(x);", "QRegularExpression x(%); use(x);", "use(s.arg(%));", "QObject o; o.setObjectName(%);", "use(QObject::tr(%));", "QDir d(%); use(d.path());", "use(tr_(%));", "[](const QString &x = %) { use(x); }();", "use(s == % || s == %);", "use(sl.contains(%));", "use(sl.join(%));", "static_cast<QString>(%);", "(QString)(%);") for e in LITS])
FA = "struct Bg { int a[30]; Bg(); Bg(const Bg &); ~Bg(); void mut(); int m; int g() const; }; struct Sm { int a; int g() const; }; extern Bg bg; extern Sm sm;"
BODIES = ["use(x);", "use(x.a[0]);", "", "use(x.g());"]
DECLS = ["void f@(%s) { # }", "struct S@ { void m(%s) { # } };", "struct S@ { void m(%s); }; void S@::m(%s) { # }", "void f@(%s); void f@(%s) { # }", "static void f@(%s) { # } void g@() { f@(%v); }", "auto l@ = [](%s) { # };", "struct S@ { S@(%s) { # } };", "struct S@ { virtual void m(%s) { # } };", "struct S@ { virtual void m(%s); }; void S@::m(%s) { # } struct T@ : S@ { void m(%s) override { } };", "template<class T> void f@(%s, T) { # } void g@() { f@(%v, 1); f@(%v, 'a'); }", "namespace n@ { void f(%s); } void n@::f(%s) { # }", "void f@(int, %s, int) { # }", "void f@(%s); void f@(%s); void f@(%s) { # }", "struct S@ { void m(%s) const; static void s(%s); }; void S@::m(%s) const { # } void S@::s(%s) { # }", "void f@(%s) { auto l = [&] { # }; l(); }", "struct S@ { template<class T> void m(%s, T) { # } }; void g@() { S@().m(%v, 1); }", "template<class T> struct S@ { void m(%s) { # } void n(%s); }; template<class T> void S@<T>::n(%s) { # } template struct S@<int>;", "MAC(void f@(%s) { # })", "#define FU@(p) void f@(p) { # }\nFU@(%s)", "void f@(%s, int = 1); void f@(%s, int) { # } void g@() { f@(%v); }", "struct S@ { friend void fr@(%s) { # } };", "struct S@ { void operator()(%s) { # } bool operator==(%s) { # return true; } };", "void f@(\n  %s\n) { # }", "struct S@ { S@(%s); }; S@::S@(%s) { # }", "void g@(void (*)(%s)); void f@(%s) { # }", "void f@(%s); struct S@ { friend void f@(%s); }; void f@(%s) { # }", "extern \"C\" void f@(%s) { # }", "inline void f@(%s) { # }", "void f@(%s = {}) { # }", "void f@(%s = {}); void f@(%s) { # }", "void f@(void (*cb)(int), %s) { # }", "void f@(%s) noexcept { # }", "auto f@(%s) -> int { # return 1; }"]
unit("function-args-by-ref", FA, [], [], [d.replace("#", b).replace("%s", p).replace("%v", "bg") for d in DECLS for b in BODIES for p in ("Bg x", "const Bg x", "Bg const x", "::Bg x", "const  Bg  x", "const struct Bg x", "MAC(const Bg) x", "const MAC(Bg) x", "const Bg/*c*/x", "const Bg\nx")])
unit("function-args-by-value", FA, [], [], [d.replace("#", b.replace("x.a[0]", "x.a")).replace("%s", p).replace("%v", "sm") for d in DECLS for b in BODIES for p in ("const Sm &x", "const Sm& x", "const Sm&x", "Sm const &x", "const ::Sm &x", "const int &x", "const QString &x", "const struct Sm &x", "MAC(const Sm &x)", "const MAC(Sm) &x", "const Sm & x", "const Sm &/*c*/x", "const Sm\n&x", "const QPoint &x", "const bool &x", "Sm &x", "const qint64 &x", "const Qt::AlignmentFlag &x")])
LATE = {"auto-unexpected-qstringbuilder": "extern QString s, q; extern QByteArray b;"}


# what the statement leaves open
SKIP = {
    "qstring-allocations": r"\(\(\"a\"\)\)|u8|\u00e9|(QLatin1String|QString)\s*\{|static_cast|\(\s*QString\s*\)|\+?= cond \?",
    "auto-unexpected-qstringbuilder": r"\bb\b|QByteArray",
    "copyable-polymorphic": r"(?<!::)[KL]@ ?\(const|operator=|K@ b\(a\)|K@ clone|#define|template",
    "qcolor-from-literal": r"decltype\(\s*\(",
    "qdatetime-utc": r"QString\(.*toTime_t",
    "missing-qobject-macro": r"#define", "use-chrono-in-qtimer": r"#define", "qt-keyword-emit": r"#define", "qt-keywords": r"#define",
    "qgetenv": r"MAC\(.*qgetenv.*qgetenv",
    "function-args-by-ref": r"\b(int|QString|QPoint|bool|AlignmentFlag|qint64|QVariant|QDateTime|QByteArray|Sm)\W.*x\.[ag]",
    "function-args-by-value": r"\b(int|QString|QPoint|bool|AlignmentFlag|qint64|QVariant|QDateTime|QByteArray|Bg)\W.*x\.[ag]",
    "modernize-overloaded-connects": r"(?s)^(?!.*QString.*QString).*QString",
    "detaching-temporary": DET, "detaching-member": DET,
}


def cases_of(check, thorough=False):
    pro, exprs, stmts, decls, qts = UNITS[check]
    out = []
    for j, e in enumerate(exprs):
        for n, w in enumerate(WS):
            v = w(e)
            if v != e or not n:
                full = thorough or j < (12 if len(exprs) > 40 else 30)
                ks = range(len(EXPR)) if not n and full else range(8) if full else sorted({0, 6, *((j * 7 + i * 5) % len(EXPR) for i in range(3))}) if not n else [(j + n) % 8]
                out += ["void f@() { " + EXPR[k].replace("#", v) + " }" for k in ks]
    for k, e in enumerate(exprs):
        for o in OUTS:
            if k < 6:
                out.append(o.replace("#", "use(" + e + ");"))
                out.append(o.replace("#", "if (" + e + ") use(1);"))
    for k, s in enumerate(stmts):
        out.append("void f@() { " + s + " }")
        if k % max(1, len(stmts) // 25) == 0:
            for o in OUTS:
                if "\n" not in s or "BODY" not in o:
                    out.append(o.replace("#", s))
    out += decls
    out = [c for c in out if not re.search(r"(?<!#)define ", c)]
    out = [c for c in out if check not in SKIP or not re.search(SKIP[check], c)]
    return [c.replace("@", str(k)) for k, c in enumerate(out)]


def main(only=()):
    ck = Check("C10", "model_checking")
    b = vbuild.build()

    def one(task):
        check, qt = task
        cs = cases_of(check, ck.thorough())
        pro = UNITS[check][0]
        prologue = (pro if pro.startswith("#define QT_") else "") + COMMON + ("" if pro.startswith("#define QT_") else pro) + LATE.get(check, "") + "\n"
        codes = ["namespace n%d_ { %s }" % (k, c) if "#define" not in c else c for k, c in enumerate(cs)]
        outer = lambda e: "#include" in e[3] and ("chrono" in e[3] or ".moc" in e[3])
        r = fixes.fix(Pool(b, 1), corpus.flags(qt, "c++17" if qt == 5 else "c++20"), prologue, codes, check, per=1500, outer=outer, files={"/v/x.moc": "", "/v/main.moc": ""})
        return check, qt, codes, r

    tasks = sorted(((c, q) for c in UNITS for q in UNITS[c][4] if not only or c in only), key=lambda t: -len(cases_of(t[0])))
    tot = 0
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for check, qt, codes, r in ex.map(one, tasks):
            n = w = fx = 0
            for c, o in zip(codes, r):
                if "skipped" in o:
                    if "crash" in o["skipped"]:
                        ck.violate("%s qt%d %s" % (check, qt, c), {"problem": o["skipped"]})
                    continue
                n += 1
                w += len(o["before"])
                fx += o["fixed"] is not None
                if o["problem"] and not ("MAC(" in c and o["problem"].startswith("still")):  # one warning per macro invocation
                    ck.violate("%s qt%d %s" % (check, qt, c), {"problem": o["problem"], "fixed": (o["fixed"] or b"").decode()})
            tot += n
            ck.cov["%s qt%d" % (check, qt)] = {"cases": n, "do not compile": len(codes) - n, "warnings": w, "fixed": fx}
            print(check, qt, ck.cov["%s qt%d" % (check, qt)], flush=True)
    ck.cov["states"] = ck.cov["transitions"] = ck.cov["traces_validated_against_impl"] = tot
    ck.finish()

if __name__ == "__main__":
    main(sys.argv[1:])
