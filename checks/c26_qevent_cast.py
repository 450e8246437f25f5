"""C26: wrong-qevent-cast. Every QEvent::Type times every event class of Qt 5 and Qt 6 (from Qt's own headers), against Qt's documented
event classes and the inheritance of the headers; and every shape of switch statement around a cast."""
import itertools, os, re
import vbuild, batch
from drv import Pool, QT5, QT6
from report import Check

CHECK = "wrong-qevent-cast"
# Qt's documentation of QEvent::Type: the class of each type's events (none if not listed)
DOC = {}
for cls, types in {
        "QActionEvent": "ActionAdded ActionChanged ActionRemoved", "QChildEvent": "ChildAdded ChildPolished ChildRemoved", "QCloseEvent": "Close", "QContextMenuEvent": "ContextMenu", "QDeferredDeleteEvent": "DeferredDelete",
        "QDragEnterEvent": "DragEnter", "QDragLeaveEvent": "DragLeave", "QDragMoveEvent": "DragMove", "QDropEvent": "Drop", "QDynamicPropertyChangeEvent": "DynamicPropertyChange", "QEnterEvent": "Enter", "QExposeEvent": "Expose",
        "QFileOpenEvent": "FileOpen", "QFocusEvent": "FocusIn FocusOut FocusAboutToChange", "QGestureEvent": "Gesture GestureOverride", "QGraphicsSceneContextMenuEvent": "GraphicsSceneContextMenu",
        "QGraphicsSceneDragDropEvent": "GraphicsSceneDragEnter GraphicsSceneDragLeave GraphicsSceneDragMove GraphicsSceneDrop", "QGraphicsSceneHelpEvent": "GraphicsSceneHelp", "QGraphicsSceneHoverEvent": "GraphicsSceneHoverEnter GraphicsSceneHoverLeave GraphicsSceneHoverMove",
        "QGraphicsSceneMouseEvent": "GraphicsSceneMouseDoubleClick GraphicsSceneMouseMove GraphicsSceneMousePress GraphicsSceneMouseRelease", "QGraphicsSceneMoveEvent": "GraphicsSceneMove", "QGraphicsSceneResizeEvent": "GraphicsSceneResize",
        "QGraphicsSceneWheelEvent": "GraphicsSceneWheel", "QHideEvent": "Hide", "QHoverEvent": "HoverEnter HoverLeave HoverMove", "QIconDragEvent": "IconDrag", "QInputMethodEvent": "InputMethod", "QInputMethodQueryEvent": "InputMethodQuery",
        "QKeyEvent": "KeyPress KeyRelease ShortcutOverride", "QMouseEvent": "MouseButtonDblClick MouseButtonPress MouseButtonRelease MouseMove NonClientAreaMouseButtonDblClick NonClientAreaMouseButtonPress NonClientAreaMouseButtonRelease NonClientAreaMouseMove",
        "QMoveEvent": "Move", "QNativeGestureEvent": "NativeGesture", "QPaintEvent": "Paint", "QPlatformSurfaceEvent": "PlatformSurface", "QResizeEvent": "Resize", "QScreenOrientationChangeEvent": "OrientationChange", "QScrollEvent": "Scroll", "QScrollPrepareEvent": "ScrollPrepare",
        "QShortcutEvent": "Shortcut", "QShowEvent": "Show", "QStatusTipEvent": "StatusTip", "QTabletEvent": "TabletMove TabletPress TabletRelease TabletEnterProximity TabletLeaveProximity", "QTimerEvent": "Timer", "QToolBarChangeEvent": "ToolBarChange",
        "QHelpEvent": "ToolTip WhatsThis QueryWhatsThis", "QTouchEvent": "TouchBegin TouchCancel TouchEnd TouchUpdate", "QWhatsThisClickedEvent": "WhatsThisClicked", "QWheelEvent": "Wheel", "QWindowStateChangeEvent": "WindowStateChange", "QApplicationStateChangeEvent": "ApplicationStateChange"}.items():
    for t in types.split():
        DOC[t] = cls
OPEN_TYPES = {"MetaCall", "Pointer"}        # Qt-internal
HEADERS = ["QtCore/qcoreevent.h", "QtGui/qevent.h", "QtWidgets/qgesture.h", "QtWidgets/qgraphicssceneevent.h"]


def facts(root):
    txt = open(os.path.join(root, "QtCore/qcoreevent.h")).read()
    body = re.search(r"enum Type \{(.*?)\};", txt, re.S).group(1)
    body = re.sub(r"/\*.*?\*/|//[^\n]*", "", body, flags=re.S)
    enums = re.findall(r"^\s*([A-Z]\w+)\s*=\s*([0-9]+)\s*,?", body, re.M)
    base = {}
    for h in HEADERS:
        for c, b in re.findall(r"^class Q_\w+_EXPORT (Q\w*Event)\s*(?:final)?\s*:\s*public (Q\w+)", open(os.path.join(root, h)).read(), re.M):
            base[c] = b
    return [e for e in enums if e[0] not in ("EnterEditFocus", "LeaveEditFocus")], base


def chain(c, base):
    out = []
    while c and c != "QEvent":
        out.append(c)
        c = base.get(c)
    return out


def main():
    ck = Check("C26", "model_checking")
    pool = Pool(vbuild.build())
    T = ck.thorough()
    n_pairs = nw = 0

    def judge(cases, got, what):
        nonlocal nw
        for (src, want), g in zip(cases, got):
            if isinstance(g, dict):
                ck.violate("%s %s" % (what, src[:200]), g)
                continue
            o = sorted((x[0], x[2]) for x in g)
            nw += len(o)
            if o == sorted(want):
                continue
            L = src.split("\n")
            for l, m in sorted(set(o) ^ set(want)) or [(0, "number of warnings")]:
                ck.violate("%s %s: %s" % (what, L[0][:60], L[l].strip()[:100]), {"message": m, "expected": (l, m) in want, "reported": (l, m) in o, "source": src[:1500]})
    for qt, root in ((5, QT5), (6, QT6)):
        enums, base = facts(root)
        args = ["-std=c++17", "-fPIC", "-w", "-ferror-limit=0", "-isystem", root] + sum((["-isystem", os.path.join(root, d)] for d in ("QtCore", "QtGui", "QtWidgets")), [])
        pro = "".join("#include <%s>\n" % h for h in HEADERS)
        classes = sorted(base) + ["QEvent"]
        cases = []
        for e, v in enums:
            if e in OPEN_TYPES:
                continue
            L, want = ["void t%s(QEvent *ev) { switch (ev->type()) { case QEvent::%s: {" % (e, e)], []
            ok = chain(DOC.get(e), base)
            for c in classes:
                if e == "DragLeave" and c in ("QDragMoveEvent", "QDropEvent") or e == "Enter" and c == "QInputEvent" and qt == 5:
                    continue
                for form in ("(void)static_cast<%s *>(ev);", "(void)static_cast<const %s *>(ev);") if T else ("(void)static_cast<%s *>(ev);",):
                    if c == "QEvent":
                        if DOC.get(e):
                            continue
                        continue
                    L.append(form % c)
                    n_pairs += 1
                    if c not in ok:
                        want.append((len(L) - 1, "Cast from a QEvent::%s event to %s looks suspicious." % (e, c)))
            L.append("break; } default: ; } }")
            cases.append(("\n".join(L) + "\n", want))
        ck.cov["qt%d_types" % qt], ck.cov["qt%d_classes" % qt] = len(cases), len(base)
        judge(cases, batch.run(pool, args, pro, [c[0] for c in cases], CHECK, per=50), "Qt %d" % qt)
    # shapes of statements around a cast; @ marks a line with a cast whose event type is the preceding name
    pro = '''struct QEvent { enum Type { None = 0, MouseMove = 5, KeyPress = 6, Paint = 12, Hide = 18, User = 1000 }; Type type() const; virtual ~QEvent(); };
struct QInputEvent : QEvent { }; struct QKeyEvent : QInputEvent { }; struct QMouseEvent : QInputEvent { }; struct QPaintEvent : QEvent { }; struct MyEvent : QEvent { };
void use(const QEvent *); bool more(); template<class F> void call(F); QEvent *get(); struct H { QEvent *ev; QEvent *other; };
'''
    OKAY = {"MouseMove": ("QMouseEvent", "QInputEvent"), "KeyPress": ("QKeyEvent", "QInputEvent"), "Paint": ("QPaintEvent",), "Hide": ()}
    # each shape: lines; a line holding a cast ends with "// <type>" or "// -" (not judged by the check)
    SW = "switch (ev->type()) {"
    SHAPES = [
        [SW, "case QEvent::A:", "$ // A", "}"],
        [SW, "case QEvent::A: {", "$ // A", "} }"],
        [SW, "case QEvent::A: { more();", "$ // A", "$ // A", "more(); break; }", "case QEvent::B: {", "$ // B", "} }"],
        [SW, "case QEvent::B: case QEvent::A:", "$ // A", "}"],
        [SW, "case QEvent::B: more(); case QEvent::A: { ", "$ // A", "} }"],
        [SW, "case QEvent::B: more(); break; default:", "$ // -", "}"],
        [SW, "case QEvent::A: if (more()) {", "$ // A", "} else {", "$ // A", "} }"],
        [SW, "case QEvent::A: if (ev->type() == QEvent::B) {", "$ // -", "} }"],
        [SW, "case QEvent::A: if (more()) { if (!ev) {", "$ // -", "}", "$ // A", "} }"],
        [SW, "case QEvent::A: if (ot->type() == QEvent::B) {", "$ // A", "} }"],
        ["if (ev->type() == QEvent::B) {", SW, "case QEvent::A:", "$ // A", "} }"],
        ["if (ev->type() == QEvent::A) {", "$ // -", "}"],
        [SW, "case QEvent::A: while (more()) { do { for (;;) {", "$ // A", "} } while (more()); } }"],
        [SW, "case QEvent::A: while (more())", "$ // A", "}"],
        [SW, "case QEvent::A: try {", "$ // A", "} catch (...) {", "$ // A", "} }"],
        [SW, "case QEvent::A: { int v = more(); switch (v) { case 1: {", "$ // A", "} default: ", "$ // A", "} } }"],
        [SW, "case QEvent::A: { switch (ot->type()) { case QEvent::B: {", "$ // A", "} } } }"],
        ["switch (ot->type()) { case QEvent::B: {", SW, "case QEvent::A:", "$ // A", "}", "$ // -", "} }"],
        [SW, "case QEvent::B: {", SW, "case QEvent::A: {", "$ // A", "} }", "$ // B", "} }"],
        ["switch (ot->type()) {", "case QEvent::A: {", "$ // -", "} }"],
        ["switch (ev->type())", "case QEvent::A:", "$ // A"],
        ["switch ((ev->type())) { case (QEvent::A):", "$ // A", "}"],
        ["switch (int(ev->type())) { case int(QEvent::A):", "$ // A", "}"],
        ["switch (static_cast<int>((*ev).type())) { case static_cast<int>(QEvent::A):", "$ // A", "}"],
        ["switch (auto t = ev->type(); more()) { case QEvent::A:", "$ // -", "}"],
        ["switch (more()) { case QEvent::A:", "$ // -", "}"],
        [SW, "case 7: {", "$ // -", "} case QEvent::Type(6): {", "$ // -", "} }"],
        [SW, "case QEvent::A: [&] {", "$ // A", "}; }"],
        [SW, "case QEvent::A: l: {", "$ // A", "} goto l; }"],
        [SW, "case QEvent::A: use(more() ? nullptr :", "static_cast<# *>(ev)); // A", "}"],
        [SW, "case QEvent::A: return use(", "static_cast<# *>(ev)); // A", "}"],
        [SW, "case QEvent::A:", "if (auto *k = static_cast<# *>(ev)) use(k); // A", "}"],
        [SW, "case QEvent::A:", "auto k = *static_cast<# *>(ev); use(&k); // A", "}"],
        ["$ // -"], ["if (more())", "$ // -", SW, "case QEvent::A: ; }", "$ // -"],
    ]
    CASTS = ["(void)static_cast<# *>(ev);", "use(static_cast<const # *>(ev));", "use(&static_cast<# &>(*ev));", "(void)static_cast<# *>((ev));", "{ auto *e2 = static_cast<# *>(ev); }", "(void)static_cast<struct # *>(ev);", "(void)static_cast<# *>(&*ev);", "(void)(static_cast<Al# *>(ev));"]
    QUIET = ["(void)dynamic_cast<# *>(ev);", "(void)(# *)ev;", "(void)reinterpret_cast<# *>(ev);", "(void)static_cast<# *>(ot);", "(void)static_cast<# *>(get());", "(void)static_cast<# *>(h.ev);", "(void)static_cast<void *>(ev);", "(void)static_cast<# *>(in);", "(void)static_cast<const # *>(static_cast<const # *>(nullptr));", "more();"]
    pro += "".join("using Al%s = %s;\n" % (c, c) for c in ("QKeyEvent", "QMouseEvent", "QPaintEvent", "QInputEvent", "MyEvent"))
    cases = []
    types = ["MouseMove", "KeyPress", "Paint", "Hide"]
    for sh, (a, b_), (cast, live), cls in itertools.product(SHAPES, itertools.permutations(types, 2), [(c, 1) for c in CASTS] + [(c, 0) for c in QUIET], ("QKeyEvent", "QMouseEvent", "QPaintEvent", "QInputEvent", "MyEvent")):
        if "static_cast<const #" in cast and live == 0 and cls == "QInputEvent" or "(in)" in cast and cls in ("QPaintEvent", "MyEvent") or "(ot)" in cast and "ot->type" in "".join(sh):
            continue
        if not T and (types.index(b_) - types.index(a)) % 4 != 1:
            continue
        if "$" not in "".join(sh) and cast is not CASTS[0]:
            continue
        L, want = ["void f@(QEvent *ev, QEvent *ot, QInputEvent *in, H h) {"], []
        for l in sh:
            code, _, mark = l.partition(" // ")
            own = "#" in code
            code = re.sub(r"QEvent::([AB])\b", lambda m: "QEvent::" + {"A": a, "B": b_}[m.group(1)], code.replace("$", cast)).replace("#", cls)
            if mark in ("A", "B") and (live or own):
                t = {"A": a, "B": b_}[mark]
                if cls not in OKAY[t]:
                    want.append((len(L), "Cast from a QEvent::%s event to %s looks suspicious." % (t, cls)))
            L.append(code)
        L.append("}")
        cases.append(("\n".join(L).replace("@", str(len(cases))) + "\n", want))
    ck.cov["shapes"] = len(cases)
    judge(cases, batch.run(pool, ["-std=c++17", "-w", "-fcxx-exceptions"], pro, [c[0] for c in cases], CHECK, per=600), "shape")
    n = n_pairs + len(cases)
    ck.cov.update({"states": n, "transitions": n, "traces_validated_against_impl": n, "warnings": nw, "exhaustive": True})
    ck.sample(cases[777][0])
    ck.finish()
