"""C08: no input makes clazy crash or hang, and the compiler does not notice clazy. Explored: every single-token mutation of small translation
units (alone, so that those which compile are analysed as a whole); of the sources in /repo/tests against the real Qt, every single-token
mutation, every spelling through macros and every dependent form which compiles; classes and namespaces with the names clazy looks for and other
signatures, used in every kind of expression; programs with every feature of C, C++ and Objective-C; deep and long programs.
`python3 checks/c08_robust.py prepare` determines with the compiler alone which of these compile (lib/c08_compiling.json.gz)."""
import gzip, hashlib, json, os, re, subprocess, sys, tempfile
if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vbuild, corpus, mockqt, tus, zoo, grid
from drv import Pool, clazy_args, clazy_diags, qt_args
from report import Check

DATA = os.path.join(os.path.dirname(os.path.abspath(zoo.__file__)), "c08_compiling.json.gz")
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?\d[\w.]*|::|->|<<|&&|\|\||[-+*/=!<>]=|\S', re.S)
MACROS = ("Q_PROPERTY Q_OBJECT Q_GADGET Q_ENUMS Q_ENUM Q_FLAGS Q_PRIVATE_SLOT Q_SIGNAL Q_SLOT Q_INVOKABLE Q_SCRIPTABLE Q_REVISION signals slots emit foreach forever Q_SIGNALS Q_SLOTS Q_EMIT Q_FOREACH "
          "SIGNAL SLOT QT_NAMESPACE QT_BEGIN_NAMESPACE QT_END_NAMESPACE QT_NO_KEYWORDS QT_VERSION_MAJOR QT_VERSION_MINOR QT_VERSION_PATCH QT_VERSION QT_CORE_LIB QT_STRICT_ITERATORS Q_OS_WIN Q_OS_WINDOWS Q_OS_LINUX "
          "Q_CONSTRUCTOR_FUNCTION Q_DECLARE_FLAGS Q_DECLARE_TYPEINFO Q_GLOBAL_STATIC Q_ASSERT Q_UNUSED QStringLiteral QLatin1String tr").split()
OPEN, CLOSE = "([{", ")]}"


def split(text):
    """The preprocessor lines on top level (kept where they are) and the top level chunks of the rest: [(is_pp, text)]."""
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    out, cur, depth, parens = [], [], 0, 0
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        if re.match(r"\s*#", ln):
            while ln.endswith("\\") and i + 1 < len(lines):
                i += 1
                ln += "\n" + lines[i]
            if depth == 0 and cur:
                out.append((False, "\n".join(cur)))
                cur = []
            if depth == 0:
                out.append((True, ln))
            else:
                cur.append(ln)
            i += 1
            continue
        cur.append(ln)
        for t in TOK.findall(re.sub(r"//.*", "", ln)):
            if t in OPEN:
                depth += 1
            elif t in CLOSE:
                depth = max(0, depth - 1)
        code = re.sub(r"//.*", "", ln).rstrip()
        if depth == 0 and code.endswith((";", "}")):
            out.append((False, "\n".join(cur)))
            cur = []
        i += 1
    if cur:
        out.append((False, "\n".join(cur)))
    return out


def mutants(chunk, kinds):
    """(kind, token number, text) of every single-token mutation of a chunk which keeps its brackets balanced."""
    spans = [(m.start(), m.end()) for m in TOK.finditer(chunk) if not m.group().startswith(("//", "/*", "#", "\\"))]
    for k, (a, b) in enumerate(spans):
        t = chunk[a:b]
        if t in ("{", "}"):
            continue
        if "del" in kinds and t not in "()[]":
            yield "del", k, chunk[:a] + " " + chunk[b:]
        if "dup" in kinds and t not in "()[]":
            yield "dup", k, chunk[:b] + " " + t + chunk[b:]
        if "swap" in kinds and k + 1 < len(spans):
            c, d = spans[k + 1]
            u = chunk[c:d]
            if u not in "(){}[]" and t not in "()[]" and u != t:
                yield "swap", k, chunk[:a] + u + chunk[b:c] + t + chunk[d:]
        if "args" in kinds and t == "(":
            # all arguments away
            dep, j = 0, k
            while j < len(spans):
                x = chunk[spans[j][0]:spans[j][1]]
                dep += x in "([{"
                dep -= x in ")]}"
                if dep == 0:
                    break
                j += 1
            if dep == 0 and j > k + 1:
                yield "args", k, chunk[:b] + chunk[spans[j][0]:]
                yield "arg0", k, chunk[:b] + "0" + chunk[spans[j][0]:]
                yield "argT", k, chunk[:b] + "{}" + chunk[spans[j][0]:]


KW = set("if else for while do switch case default return break continue goto class struct union enum namespace using typedef template typename public private protected signals slots Q_SIGNALS Q_SLOTS const static virtual override final void int char bool auto new delete operator this friend inline explicit constexpr".split())


def forms(chunk, kinds):
    """The chunk with parts of it, or all of it, from macros; as a template; with dependent types and arguments."""
    if "#" in re.sub(r'"(?:\\.|[^"\\\n])*"', "", chunk):
        return
    spans = [(m.start(), m.end()) for m in TOK.finditer(chunk) if not m.group().startswith(("//", "/*"))]

    def each(pred, form):
        o, last = [], 0
        for a, b in spans:
            if pred(chunk[a:b]):
                o += [chunk[last:a], form % chunk[a:b]]
                last = b
        return "".join(o) + chunk[last:]
    if "form" in kinds:
        code = re.sub(r"//[^\n]*", "", chunk)
        yield "macro", 0, "ID_(%s)" % code
        yield "macro2", 0, "ID_(ID_(%s))" % code
        for n, pred in enumerate([lambda t: re.match(r"[A-Za-z_]", t) and t not in KW, lambda t: t[0] in "\"'0123456789.", lambda t: t in "+-*/%&|!~<>=" or t in ("==", "!=", "<=", ">=", "&&", "||", "<<", "->", "::", "+=", "-="), lambda t: t in KW,
                                   lambda t: t in ";,.", lambda t: t not in "()[]{},#"]):
            yield "mcls", n, each(pred, "ID_(%s)")
        for n, pred in enumerate([lambda t: t == "(", lambda t: t == ")", lambda t: t == "{", lambda t: t == "}"]):
            yield "mpar", n, each(pred, ("LP_", "RP_", "LB_", "RB_")[n] + "%.0s")
    if "mtok" in kinds:
        for k, (a, b) in enumerate(spans):
            if chunk[a:b] not in "()[]{},":
                yield "mtok", k, chunk[:a] + "ID_(" + chunk[a:b] + ")" + chunk[b:]
    m = re.match(r"\s*(?://[^\n]*\s*)*((?:static |inline )?(?:void|int|bool|QString|auto) \w+\()", chunk)
    if "tpl" in kinds and m:
        a = m.start(1)
        head = chunk[:a] + "template<class T_, class U_, class...P_> "
        yield "tpl", 0, head + chunk[a:]
        seen = set()
        for k, (b, e) in enumerate(spans):
            t = chunk[b:e]
            if b > a + 5 and re.match(r"(?:Q[A-Z]\w*|int|char|auto|void)$", t):
                yield "ttyp", k, head + chunk[a:b] + "T_" + chunk[e:]
            if t not in seen and re.match(r"Q[A-Z]\w*$", t):
                seen.add(t)
                yield "tall", k, head + re.sub(r"\b%s\b" % t, "T_", chunk[a:])
            if b > a + 5 and (re.match(r"[a-z]\w*$", t) and t not in KW or t[0] in "\"0123456789"):
                yield "tval", k, head + chunk[a:b] + "U_()" + chunk[e:]
            if t == "(" and b > a + len(m.group(1)):
                dep, j = 0, k
                while j < len(spans):
                    x = chunk[spans[j][0]:spans[j][1]]
                    dep += x in "([{"
                    dep -= x in ")]}"
                    if dep == 0:
                        break
                    j += 1
                if dep == 0:
                    yield "targ", k, head + chunk[a:e] + "P_()..." + chunk[spans[j][0]:]


def wrap(n, text):
    return "namespace m_%d {\n%s\n}\n" % (n, text)


ALLKINDS = ("del", "dup", "swap", "args", "form", "tpl")
HEAD = "\n#define ID_(...) __VA_ARGS__\n#define LP_ (\n#define RP_ )\n#define LB_ {\n#define RB_ }"


def pick():
    seen, out = set(), []
    for f, q in corpus.load():
        if f not in seen:
            seen.add(f)
            out.append((f, q))
    return out


def load(f):
    """The source with everything unchanged, and all its mutants [(chunk, kind, number, text)]."""
    text = open(corpus.path(f), encoding="utf-8", errors="replace").read()
    parts, ms = split(text), []
    for n, (pp, t) in enumerate(parts):
        if not pp:
            ms += [(n, k, i, x) for k, i, x in mutants(t, ALLKINDS)] + [(n, k, i, x) for k, i, x in forms(t, ALLKINDS)]
    return "\n".join(t for p, t in parts) + HEAD, ms, hashlib.sha1(text.encode()).hexdigest()[:12]


def corpus_job(f, q, base, ms, every):
    main = os.path.join(os.path.dirname(corpus.path(f)), "mut_x.cpp")
    return {"args": corpus.flags(q) + ["-ferror-limit=0"] + (clazy_args(every) if every else []), "main": main,
            "files": {main: base + "\n" + "".join(wrap(i, m[3]) for i, m in enumerate(ms))}, "timeout": 200}


def blame(r, spans, main):
    """The spans of lines [(begin, end)] the errors are about, by the error or by its notes; None when one cannot be told."""
    bad, cur, odd = set(), None, False
    for d in r["diags"]:
        if d["level"] in ("error", "fatal"):
            odd |= cur is not None
            cur = d
        elif d["level"] != "note" or not cur:
            continue
        if d.get("file") != main:
            continue
        for i, (a, b) in enumerate(spans):
            if a <= d.get("line", 0) < b:
                bad.add(i)
                cur = None
                break
    return bad


def compiling(pool, f, q, base, ms):
    """Indices of the mutants which compile."""
    good, todo = [], [list(range(i, min(i + 400, len(ms)))) for i in range(0, len(ms), 400)]
    for rnd in range(6):
        jobs = [corpus_job(f, q, base, [ms[i] for i in g], None) for g in todo]
        nxt = []
        for g, j, r in zip(todo, jobs, pool.run(jobs)):
            if "crash" in r:
                continue
            ln, spans = base.count("\n") + 2, []
            for n, i in enumerate(g):
                k = wrap(n, ms[i][3]).count("\n")
                spans.append((ln, ln + k))
                ln += k
            bad = blame(r, spans, j["main"])
            if not r["nerr"]:
                good += g
            elif bad and len(bad) < len(g):
                nxt.append([i for n, i in enumerate(g) if n not in bad])
        todo = nxt
    return sorted(good)


def zoo_lines(turn, at, n, nctx):
    return zoo.unit(turn, zoo.METHODS[at:at + n], nctx).split("\n")


def zoo_job(lines, every, std="c++17"):
    return {"args": ["-std=" + std, "-ferror-limit=0", "-w"] + (clazy_args(every) if every else []), "main": "/v/x.cpp", "files": {"/v/x.cpp": "\n".join(lines)}, "timeout": 200}


def zoo_drop(pool, units):
    """For each unit the lines to leave out for the rest to compile, None if that did not work out."""
    npre = zoo.PRE.count("\n")
    drop = [set() for u in units]
    todo = list(range(len(units)))
    left = [list(u) for u in units]
    for rnd in range(12):
        nxt = []
        for n, r in zip(todo, pool.run([zoo_job(left[n], None) for n in todo])):
            if "crash" in r:
                drop[n] = None
                continue
            if not r["nerr"]:
                continue
            bad, cur = set(), False
            for d in r["diags"]:
                if d["level"] in ("error", "fatal"):
                    cur = True
                elif d["level"] != "note" or not cur:
                    continue
                x = d.get("line", 0)
                if x <= npre or left[n][x - 1].endswith("{") or left[n][x - 1] in ("", "}", "};", "return {};"):
                    continue
                bad.add(x - 1)
                cur = False
            if bad:
                for x in bad:
                    left[n][x] = ""
                drop[n] |= bad
                nxt.append(n)
            else:
                drop[n] = None
        todo = nxt
    for n in todo:
        drop[n] = None
    return drop


ZOO = [(t, i) for t in range(len(zoo.KINDS)) for i in range(0, len(zoo.METHODS), 10)]


def prepare():
    pool = Pool(vbuild.build(), plugin="-")
    out = {"corpus": {}, "zoo": {}}
    for f, q in pick():
        base, ms, h = load(f)
        out["corpus"][f] = [q, h, compiling(pool, f, q, base, ms)]
        print(f, len(ms), len(out["corpus"][f][2]), flush=True)
    todo = ZOO[:int(os.environ.get("ZOO", "90"))]
    for n, d in zip(todo, zoo_drop(pool, [zoo_lines(t, i, 10, 2) for t, i in todo])):
        if d is not None:
            o, last = [], 0
            for x in sorted(d):
                o.append(x - last)
                last = x
            out["zoo"]["%d-%d" % n] = [hashlib.sha1("\n".join(zoo_lines(*n, 10, 2)).encode()).hexdigest()[:12], o]
    print(len(out["zoo"]), "units")
    with gzip.GzipFile(DATA, "wb", mtime=0) as g:
        g.write(json.dumps(out).encode())


def own(r):
    """What the compiler itself reported."""
    return [(d.get("file"), d.get("line"), d.get("col"), d["level"], d["msg"], json.dumps(d.get("fix"))) for d in r["diags"] if "[-Wclazy-" not in d["msg"]]


def token_mutants(src, T):
    """Every single-token deletion and duplication, and every prefix, of a source, unbalanced ones too."""
    spans = [(m.start(), m.end()) for m in TOK.finditer(src)]
    for k, (a, b) in enumerate(spans):
        yield "del-%d" % k, src[:a] + src[b:]
        yield "cut-%d" % k, src[:a]
        if T:
            yield "dup-%d" % k, src[:b] + " " + src[a:]
            yield "half-%d" % k, src[:(a + b) // 2]


def main():
    ck = Check("C08", "model_checking")
    T = ck.thorough()
    b = vbuild.build()
    pool = Pool(b)
    names = [c["name"] for c in json.load(open(os.path.join(vbuild.REPO, "checks.json")))["checks"]]
    every = ",".join(names)
    data = json.loads(gzip.open(DATA).read())
    states = trans = valid = same = cellcount = 0

    def crash(key, r, j, detail):
        """A crash is clazy's unless the compiler alone crashes as well."""
        k = dict(j)
        k["args"] = j["args"][:j["args"].index("-Xclang")] if "-add-plugin" in j["args"] else j["args"]
        if "crash" in pool.run([k])[0]:
            return
        ck.violate(key, {"signal": r["crash"], "hang": r["crash"] == 14, "detail": detail, "job": j})

    # 1. The sources of the tests, mutated: batches, which are taken apart where one crashes
    groups = []
    for f, q in pick():
        base, ms, h = load(f)
        q0, h0, idx = data["corpus"].get(f, (q, "", []))
        good = [ms[i] for i in idx] if h == h0 else []
        if T:
            # Also those which do not compile: most of them are analysed up to the error only
            have = set(idx) if h == h0 else set()
            rest = [m for i, m in enumerate(ms) if i not in have]
            groups += [(f, q, base, rest[i:i + 400]) for i in range(0, len(rest), 400)]
        for i in range(0, max(1, len(good)), 500):
            groups.append((f, q, base, good[i:i + 500]))
    while groups:
        jobs = [corpus_job(*g, every) for g in groups]
        nxt = []
        for g, j, r in zip(groups, jobs, pool.run(jobs)):
            if "crash" not in r:
                states += len(g[3]) + 1
                trans += len(clazy_diags(r))
                valid += 0 if r["nerr"] else len(g[3]) + 1
            elif len(g[3]) > 1 and len(ck.violations) < 12:
                k = max(1, len(g[3]) // 8)
                nxt += [(g[0], g[1], g[2], g[3][i:i + k]) for i in range(0, len(g[3]), k)]
            else:
                m = g[3][0] if g[3] else (0, "none", 0, "")
                crash("%s, Qt %d, part %d, %s %d" % (g[0], g[1], *m[:3]), r, j, m[3])
        groups = nxt

    # 2. Names clazy knows with other meanings
    todo = [n for n in ZOO if "%d-%d" % n in data["zoo"]]
    if not T:
        todo = todo[:30]
    jobs = []
    for n in todo:
        lines = zoo_lines(*n, 10, 2)
        h, o = data["zoo"]["%d-%d" % n]
        if hashlib.sha1("\n".join(lines).encode()).hexdigest()[:12] != h:
            continue
        x = 0
        for d in o:
            x += d
            lines[x] = ""
        for std in ("c++17",) if not T else ("c++17", "c++14", "c++20", "c++23"):
            jobs.append((n, std, zoo_job(lines, every, std), sum(1 for k in lines if k)))
    for (n, std, j, size), r in zip(jobs, pool.run([x[2] for x in jobs])):
        states += size
        if "crash" in r:
            crash("names, turn %d, from %d, %s" % (*n, std), r, j, "")
        else:
            trans += len(clazy_diags(r))
            valid += 0 if r["nerr"] else size

    # 2b. Every kind of expression in every kind of function
    heads = [("mock", lambda t: tus.tu(t, ["-std=c++20", "-ferror-limit=0"], (every,)), ["#include <%s>" % h for h in ("QObject", "QString", "QList", "QMap")])]
    for q in (5, 6):
        heads.append(("Qt %d" % q, lambda t, q=q: {"args": qt_args(q, "c++20" if q == 6 else "c++17") + ["-ferror-limit=0", "-Wno-everything"] + clazy_args(every), "main": "/v/x.cpp", "files": {"/v/x.cpp": t}, "timeout": 120}, ["#include <%s>" % h for h in ("QObject", "QString", "QStringList", "QMap")]))
    def compiling(cells):
        done = []
        for turn in range(4):  # Leave out what does not compile
            js = [h[1](grid.source(c, keep, h[2])[0]) for h, c, keep in cells]
            for j in js:
                j["args"] = j["args"][:j["args"].index("-Xclang")] + ["-fsyntax-only", "-Wno-everything"]
            nxt = []
            for (h, c, keep), r in zip(cells, pool.run(js)):
                at = grid.source(c, keep, h[2])[1]
                bad, open_ = set(keep) if "crash" in r else set(), False
                for d in r.get("diags", ()):  # An error within a header belongs to the first of its notes in the main file
                    open_ = d["level"] in ("error", "fatal") or (open_ and d["level"] == "note")
                    if open_ and d["file"] == "/v/x.cpp":
                        bad.add(at.get(d["line"]))
                        open_ = False
                (nxt if bad else done).append((h, c, [k for k in keep if k not in bad]))
            cells = nxt
        return [x for x in done + cells if x[2]]
    cells = compiling([(heads[0], c, list(range(len(grid.EXPRS)))) for c in grid.CONTEXTS])
    cells += compiling([(h, c, keep) for n, (_, c, keep) in enumerate(cells) for q, h in enumerate(heads[1:]) if T or n % 3 == q])
    while cells:
        js = [h[1](grid.source(c, keep, h[2])[0]) for h, c, keep in cells]
        nxt = []
        for (h, c, keep), j, r in zip(cells, js, pool.run(js)):
            if "crash" not in r:
                states += len(keep)
                trans += len(clazy_diags(r))
                valid += 0 if r["nerr"] else len(keep)
                cellcount += 0 if r["nerr"] else len(keep)
            elif len(keep) > 1 and len(ck.violations) < 12:
                k = max(1, len(keep) // 6)
                nxt += [(h, c, keep[i:i + k]) for i in range(0, len(keep), k)]
            else:
                crash("%s in %s, %s" % (grid.EXPRS[keep[0]], c, h[0]), r, j, "")
        cells = nxt

    # 3. Small units, each mutation on its own, with and without clazy
    units = tus.units(names)
    small = []
    for n in ("A", "M") if not T else list(units) + ["M"]:
        src, args, plugin = units[n] if n != "M" else (tus.Q + tus.M_, [], (every,))
        cut = src.index('#include "h.h"') if '#include "h.h"' in src else 0
        for k, t in token_mutants(src[cut:], T):
            small.append(("unit %s, %s" % (n, k), tus.tu(src[:cut] + t, args, plugin)))
    for name, src, x in [("features", zoo.FEATURES, ["-std=c++20"]), ("c", zoo.CODE_C, ["-x", "c"]), ("objc", zoo.CODE_OBJC, ["-x", "objective-c", "-fblocks", "-fobjc-exceptions"]), ("objc++", zoo.CODE_OBJC, ["-x", "objective-c++", "-fblocks", "-fobjc-exceptions"])]:
        mut = list(token_mutants(src, T)) if name in ("features", "c") or T else []
        for k, t in [("as it is", src)] + mut:
            small.append(("%s, %s" % (name, k), {"args": x + ["-ferror-limit=0"] + clazy_args(every), "main": "/v/x.cpp", "files": {"/v/x.cpp": t}, "timeout": 60}))
    for std in ("c++98", "c++11", "c++14", "c++17", "c++20", "c++23", "c++26"):
        for n, src in (("features", zoo.FEATURES), ("A", tus.Q + tus.A_), ("M", tus.Q + tus.M_)):
            j = tus.tu(src, ["-std=" + std, "-fms-extensions", "-fdelayed-template-parsing", "-fno-exceptions", "-fno-rtti"] if std != "c++17" else [], (every,))
            small.append(("%s in %s" % (n, std), j))
    for x in ("c++-header", "cpp-output", "c++-cpp-output", "assembler-with-cpp", "cl", "cuda"):
        small.append(("language " + x, {"args": ["-x", x, "-nocudainc", "-nocudalib", "--cuda-host-only", "-Wno-unused-command-line-argument"] + clazy_args(every), "main": "/v/x.cpp", "files": {"/v/x.cpp": "int a; // clazy:exclude=foo\n"}, "timeout": 60}))
    for n, t in zoo.monsters(400 if T else 200):
        small.append(("monster %s" % n, {"args": ["-std=c++17", "-fbracket-depth=2048", "-ftemplate-depth=2048", "-Wno-everything"] + clazy_args(every), "main": "/v/x.cpp", "files": {"/v/x.cpp": t}, "timeout": 60}))
    # Every macro clazy looks at, with every form of definition and of use
    for name in MACROS:
        for bn, body in enumerate(("", " ", " 1", " -1", " 99999999999999999999", ' "s"', " L'c'", " ::", " a", " a::b", " #", " %s" % name, "()", "(x) x", "(x) #x", "(x, y) x##y", "(...) __VA_ARGS__", "(x...)", " ((QT_VERSION_MAJOR<<16))",
                                       " static", " ;", None)):
            d = "" if body is None else "#define %s%s\n" % (name, body)
            uses = ("#if defined(%(n)s) && !%(n)s\nint i0;\n#elif defined %(n)s\n#endif\n#ifndef %(n)s\n#define %(n)s_\n#endif\n#ifdef %(n)s\n#else\n#endif\n#if 0\n#elifdef %(n)s\n#elifndef %(n)s\n#endif\n",
                    "struct Q%(n)s { %(n)s };\n", "class C { %(n)s() %(n)s(1) public %(n)s: %(n)s int f(int %(n)s); %(n)s(int a READ b, c) };\n", "%(n)s\n%(n)s(int, f(), \"s\")\n%(n)s(%(n)s(1))\n",
                    "#undef %(n)s\n#define %(n)s 6\n#undef %(n)s\n%(n)s int j;\n", "#define W(x) x\nW(%(n)s) W(%(n)s()) W(%(n)s(a b c))\n#define V %(n)s\nV V() V(1) V(", "#include %(n)s\n", "#pragma push_macro(\"%(n)s\")\n#pragma pop_macro(\"%(n)s\")\n%(n)s(")
            for u, use in enumerate(uses):
                src = d + use % {"n": name}
                small.append(("macro %s, %d, %d" % (name, bn, u), {"args": ["-std=c++20", "-ferror-limit=0"] + clazy_args(every), "main": "/v/x.cpp", "files": {"/v/x.cpp": src}, "timeout": 60}))
    for name in MACROS:
        for val in ("", "=", "=1", "=x", "=::", '="s"', "(x)=x"):
            small.append(("macro -D%s%s" % (name, val), {"args": ["-std=c++20", "-ferror-limit=0", "-D" + name + val] + clazy_args(every), "main": "/v/x.cpp", "files": {"/v/x.cpp": "struct S {};\n%s\n" % name}, "timeout": 60}))
    small = [(k, j) for k, j in small if not k.startswith("language cuda")]
    bare = []
    for k, j in small:
        p = dict(j)
        p["args"] = j["args"][:j["args"].index("-Xclang")]
        bare.append(p)
    for (k, j), r, r0 in zip(small, pool.run([j for k, j in small]), pool.run(bare)):
        states += 1
        if "crash" in r:
            if "crash" not in r0:
                ck.violate(k, {"signal": r["crash"], "hang": r["crash"] == 14, "job": j})
            continue
        if "crash" in r0:
            continue
        trans += len(clazy_diags(r))
        same += 1
        valid += not r.get("nerr")
        if own(r) != own(r0):
            g, w = own(r), own(r0)
            ck.violate("%s: the compiler's diagnostics" % k, {"missing": [x for x in w if x not in g][:4], "extra": [x for x in g if x not in w][:4], "job": j})

    # 4. The same diagnostics and object code for real sources
    files = corpus.small() if not T else pick()
    tmp = tempfile.mkdtemp(prefix="c08-")

    def obj(n, f, q, plugin):
        o = os.path.join(tmp, "%d%s.o" % (n, "p" if plugin else ""))
        a = [x for x in corpus.flags(q) if x != "-Wno-everything"]
        cmd = [vbuild.CLANGXX] + a + ["-Wall", "-Wextra", "-Wshadow", "-fno-caret-diagnostics", "-fno-color-diagnostics", "-g1", "-O1", "-c", corpus.path(f), "-o", o] + (["-Xclang", "-load", "-Xclang", b.plugin] + clazy_args(every) if plugin else [])
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=vbuild.clean_env(), timeout=300)
        err = p.stderr.decode("utf-8", "replace")
        d = open(o, "rb").read() if os.path.exists(o) else None
        if d is not None:
            os.unlink(o)
        # Notes belong to the warning before them; the count of warnings at the end includes clazy's
        keep, on = [], True
        for ln in err.split("\n"):
            if re.search(r": (warning|error|fatal error): ", ln):
                # clazy's own notes are warnings of this text without a flag
                on = "[-Wclazy-" not in ln and not ln.endswith("warning: Type declared here:")
            if re.match(r"\d+ (warning|error)s?( and \d+ errors?)? generated", ln):
                continue
            if on and (": warning: " in ln or "error: " in ln or ": note: " in ln):
                keep.append(ln)
        return p.returncode, keep, hashlib.sha1(d).hexdigest() if d is not None else None
    from concurrent.futures import ThreadPoolExecutor
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda x: (x, obj(x[0], x[1][0], x[1][1], False), obj(x[0], x[1][0], x[1][1], True)), enumerate(files)))
    finally:
        os.rmdir(tmp) if not os.listdir(tmp) else None
    for (n, (f, q)), w, g in res:
        states += 1
        if w[0] != g[0] or w[2] != g[2]:
            ck.violate("%s, Qt %d: object code" % (f, q), {"without": w, "with": g})
        elif w[1] != g[1]:
            ck.violate("%s, Qt %d: the compiler's diagnostics" % (f, q), {"missing": [x for x in w[1] if x not in g[1]][:4], "extra": [x for x in g[1] if x not in w[1]][:4]})
    ck.sample({"mutants of": "auto-unexpected-qstringbuilder/main.cpp", "expected": "no crash"})
    ck.cov.update(states=states, transitions=trans, traces_validated_against_impl=states, inputs_without_errors=valid, expressions_in_functions=cellcount, inputs_with_equal_diagnostics=same, object_files_compared=len(res))
    ck.assumptions = ["A hang is more than 60 to 200 s for inputs which clang compiles in a few seconds.", "Inputs with errors are analysed up to the first statement only, which is clazy's design.", "Crashes of clang alone are not clazy's."]
    ck.finish()


if __name__ == "__main__":
    prepare() if sys.argv[1:] == ["prepare"] else main()
