"""A minimal stand-in for Qt's headers, so that thousands of translation units can be analysed quickly.
Installed below -isystem /v/qt in the driver's in-memory file system (or written to a directory for real processes)."""
QT = r'''
#pragma once
#define Q_DISABLE_COPY(C) C(const C &) = delete; C &operator=(const C &) = delete;
#define QT_ANNOTATE_CLASS(type, ...)
#define Q_OBJECT public: static const QMetaObject staticMetaObject; virtual const QMetaObject *metaObject() const; static QString tr(const char *s, const char *c = nullptr, int n = -1); private:
#define Q_GADGET public: static const QMetaObject staticMetaObject; private:
#define Q_SIGNALS public
#define Q_SLOTS
#define Q_SIGNAL
#define Q_SLOT
#define Q_INVOKABLE
#define Q_SCRIPTABLE
#define Q_EMIT
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define Q_PRIVATE_SLOT(d, s)
#define Q_FOREACH(variable, container) for (auto _c = (container), *_p = &_c; _p; _p = nullptr) for (variable : *_p)
#define signals public
#define slots
#define emit
#define foreach Q_FOREACH
#define SIGNAL(a) qFlagLocation("2" #a)
#define SLOT(a) qFlagLocation("1" #a)
const char *qFlagLocation(const char *);
extern "C" char *getenv(const char *);
namespace Qt { enum ConnectionType { AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection, UniqueConnection = 0x80 }; }
struct QMetaObject { struct Connection { Connection(); operator bool() const; }; };
class QByteArray { void *d; public: QByteArray(const char * = nullptr); QByteArray(const QByteArray &); ~QByteArray(); QByteArray &operator=(const QByteArray &);
  bool isEmpty() const; bool isNull() const; int toInt(bool *ok = nullptr, int base = 10) const; const char *data() const; char *data(); };
QByteArray qgetenv(const char *);
class QLatin1String { public: explicit QLatin1String(const char *); const char *s; };
class QChar { public: QChar(); unsigned short u; };
class QString { void *d; public: QString(); QString(const char *); QString(QLatin1String); QString(const QString &); ~QString(); QString &operator=(const QString &);
  QString arg(const QString &) const; QString arg(int) const; QString left(int) const; bool isEmpty() const; int length() const; int size() const; int count() const; QString &operator+=(const QString &); 
  static QString fromLatin1(const char *); static QString number(int); QString toLower() const; bool contains(const QString &) const; };
bool operator==(const QString &, const QString &);
bool operator==(const QString &, const char *);
QString operator+(const QString &, const QString &);
class QObject { public: QObject(QObject *parent = nullptr); virtual ~QObject(); static const QMetaObject staticMetaObject; virtual const QMetaObject *metaObject() const; Q_DISABLE_COPY(QObject)
  static QMetaObject::Connection connect(const QObject *, const char *, const QObject *, const char *, Qt::ConnectionType = Qt::AutoConnection);
  QMetaObject::Connection connect(const QObject *, const char *, const char *, Qt::ConnectionType = Qt::AutoConnection) const;
  static bool disconnect(const QObject *, const char *, const QObject *, const char *);
  template<class F1, class F2> static QMetaObject::Connection connect(const QObject *s, F1 f, const QObject *r, F2 g, Qt::ConnectionType = Qt::AutoConnection) { return {}; }
  template<class F1, class F2> static QMetaObject::Connection connect(const QObject *s, F1 f, F2 g) { return {}; }
  virtual bool event(void *); bool isWidgetType() const; QString objectName() const; void installEventFilter(QObject *); virtual bool eventFilter(QObject *, void *); };
template<class T> struct QListIter { T *p; T &operator*() const; QListIter &operator++(); bool operator!=(const QListIter &) const; };
template<class T> class QList { void *d; public: QList(); QList(const QList &); ~QList(); QList &operator=(const QList &); using iterator = QListIter<T>; using const_iterator = QListIter<const T>;
  void append(const T &); QList &operator<<(const T &); void reserve(int); int size() const; int count() const; bool isEmpty() const; T &operator[](int); const T &operator[](int) const; const T &at(int) const; T &first(); const T &first() const;
  iterator begin(); const_iterator begin() const; iterator end(); const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const; };
template<class T> class QVector : public QList<T> { public: using QList<T>::QList; };
class QStringList : public QList<QString> { };
template<class K, class V> class QMap { void *d; public: QMap(); QMap(const QMap &); ~QMap(); QList<K> keys() const; QList<V> values() const; V &operator[](const K &); int size() const; };
template<class K, class V> class QHash { void *d; public: QHash(); QHash(const QHash &); ~QHash(); V &operator[](const K &); QList<V> values() const; };
'''


def files(root="/v/qt"):
    f = {root + "/qtmock.h": QT}
    for n in ("QObject", "QString", "QList", "QMap"):
        f[root + "/" + n] = '#pragma once\n#include "qtmock.h"\n'
    return f


ARGS = ["-isystem", "/v/qt"]
