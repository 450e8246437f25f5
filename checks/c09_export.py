"""C09: exported fixes. Every sequence of inputs up to a bound given to clazy-standalone (and every input, for the plugin): the YAML file
must hold exactly the clazy warnings of the single inputs, with exactly their edits."""
import concurrent.futures as cf
import itertools, json, os, shutil, subprocess, tempfile
import yaml
import vbuild, corpus, mockqt
from yamlfixes import load, canon
from drv import Pool, clazy_args, clazy_diags, check_of
from report import Check

Q = '#include <QObject>\n#include <QList>\n'
HDR = '#pragma once\n#include <QObject>\ninline bool hf() { return qgetenv("H").isEmpty(); }\nstruct HB { int a[100]; }; inline int hk(const HB s) { return s.a[0]; }\n'
SRC = {
    "one": Q + 'bool f() { return qgetenv("A").isEmpty(); }\n',
    "many": Q + '''struct P1 { int a[100]; }; int k1(const P1 s) { return s.a[0]; }
struct V1 { virtual ~V1(); virtual void h(); };
struct P2 { int a; }; int k2(const P2 &s, const P2 &t, P1 u) { return s.a + t.a + u.a[0]; }
void l(QList<QString> l) { for (QString x : l) { x.size(); qgetenv("A").isEmpty(); qgetenv("B").toInt(); } }
struct O : QObject { Q_OBJECT
public: signals: void s(); public slots: void t(); public: void u() { connect(this, SIGNAL(s()), this, SLOT(t())); } };
#ifndef ZMACRO1
#define ZMACRO2
#endif
''',
    "hdr": '#include "h.h"\nbool f() { return qgetenv("A").isEmpty() || hf(); }\n',
    "none": Q + "int f() { return 1; }\n",
    "nofix": Q + 'bool f() { return getenv("A"); }\n',
    "error": Q + 'int broken = nosuch;\nbool f() { return qgetenv("A").isEmpty(); }\nint g() { return undeclared(); }\n',
    "errorlate": Q + 'bool f() { return qgetenv("A").isEmpty(); }\nint k(struct Nope n) { return qgetenv("A").isEmpty() }\n',
    "fatal": '#include <nosuchfile>\n' + Q + 'bool f() { return qgetenv("A").isEmpty(); }\n',
    "supp": Q + 'bool f() { return qgetenv("A").isEmpty(); } // clazy:exclude=qgetenv\nbool g() { return qgetenv("A").isEmpty(); }\nbool h() { return qgetenv("A").isEmpty(); } // NOLINT\n',
    "skip": Q + '// clazy:skip\nbool f() { return qgetenv("A").isEmpty(); }\n',
    "macro": Q + '#define M(x) qgetenv(x).isEmpty()\n#define N(x) (x)\nbool f() { return M("A") || N(qgetenv("B").isEmpty()); }\n',
    "cwarn": Q + 'int f() { int unused; if (int a = 1) ; return 1 == 2 == 3; }\nbool g() { return qgetenv("A").isEmpty(); }\n',
    "missing": None,
}
CHECKS = "level2,function-args-by-ref,function-args-by-value"


def expect(diags, rel=lambda f: f):
    """[(check, message, file, offset, sorted edits)] from driver diagnostics; None for an edit that is not in plain file text"""
    out = []
    for d in diags:
        ed = []
        for x in d.get("fix", []):
            ed.append((rel(x.get("file", "?")), x.get("off"), x.get("len"), x["text"]) if not x.get("macro") and not x.get("bad") else None)
        out.append(("clazy-" + check_of(d), d["msg"][:d["msg"].rfind(" [-Wclazy-")], rel(d["file"]), d["off"], ed, d["level"]))
    return out


def same(want, got):
    """Compares as multisets; edits as sets of (file, off, len, text); adjacent edits may have been merged."""
    if got is None:
        got = []
    key = lambda d: d[:4] + (d[5],)
    w, g = sorted(want, key=key), sorted(got, key=key)
    if [key(d) for d in w] != [key(d) for d in g]:
        return False
    for a, c in zip(w, g):
        if None in a[4]:
            continue
        if sorted(a[4]) != sorted(c[4]) and canon(a[4]) != canon(c[4]):
            return False
    return True


def main():
    ck = Check("C09", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c09-"))
    trans = 0
    states = set()
    try:
        for p, t in mockqt.files(tmp + "/qt").items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        db = []
        names = list(SRC)
        for n in names:
            for k in range(3):
                d = "%s/%s%d" % (tmp, n, k)
                os.makedirs(d)
                # Distinct base names: clang's ClangTool shares one FileManager, so that equal relative names in two directories are one file to it.
                if SRC[n] is not None:
                    open("%s/x%s%d.cpp" % (d, n, k), "w").write(SRC[n].replace('"h.h"', '"h%s%d.h"' % (n, k)))
                open("%s/h%s%d.h" % (d, n, k), "w").write(HDR)
                # position 0: absolute, 1: relative to another directory, 2: relative to its own
                src = ["%s/x%s%d.cpp" % (d, n, k), "../%s%d/x%s%d.cpp" % (n, k, n, k), "x%s%d.cpp" % (n, k)][k]
                wd = d if k != 1 else tmp + "/qt"
                db.append({"directory": wd, "file": src, "arguments": ["clang++", "-std=c++17", "-isystem", tmp + "/qt", "-c", src]})
        json.dump(db, open(tmp + "/compile_commands.json", "w"))
        # what each input reports on its own, without export (driver)
        exist = [n for n in names if SRC[n] is not None]
        res = pool.run([{"args": ["-std=c++17", "-isystem", tmp + "/qt"] + clazy_args(CHECKS), "main": "%s/%s0/x%s0.cpp" % (tmp, n, n), "files": {}} for n in exist])
        base = {n: [] for n in names}
        for n, r in zip(exist, res):
            base[n] = expect(clazy_diags(r), lambda f: os.path.relpath(f, tmp + "/" + n + "0").replace(n + "0", ""))
        if sum(len(d[4]) for d in base["many"]) < 8 or not base["error"] == [] and not base["errorlate"]:
            ck.violate("inputs", {n: len(v) for n, v in base.items()})

        def at(n, k):
            d = "%s/%s%d/" % (tmp, n, k)
            f = lambda p: d + p.replace("x.", "x%s%d." % (n, k)).replace("h.", "h%s%d." % (n, k))
            return [(c, m, f(p), o, [e and (f(e[0]),) + e[1:] for e in ed], lv) for c, m, p, o, ed, lv in base[n]]

        def standalone(h, env=None, cwd=None, flags=(), dup=False):
            out = tempfile.mktemp(prefix="o", suffix=".yaml", dir=tmp)
            fs = ["%s/%s%d/x%s%d.cpp" % (tmp, n, 0 if dup else k, n, 0 if dup else k) for k, n in enumerate(h)]
            p = subprocess.run([b.standalone, "-p", tmp, "-checks=" + CHECKS, "-export-fixes=" + (os.path.relpath(out, cwd) if cwd else out)] + list(flags) + fs, capture_output=True,
                               env=vbuild.clean_env(env), cwd=cwd or "/", timeout=300)
            r = load(out)
            if os.path.exists(out):
                os.unlink(out)
            return p.returncode, r
        hs = [h for k in (1, 2) for h in itertools.product(names, repeat=k)]
        small = ["one", "many", "none", "error", "missing", "hdr"] if not T else [n for n in names if n not in ("skip", "cwarn")]
        hs += list(itertools.product(small, repeat=3))
        jobs = [(h, {}) for h in hs]
        jobs += [((n,) * k, {"dup": True}) for n in names for k in (2, 3)]
        jobs += [((n, m), {"cwd": tmp + "/one2"}) for n in names[:4] for m in names[:6]]
        jobs += [((n, m), {"env": {"CLAZY_CHECKS_AS_ERRORS": "qgetenv"}}) for n in names for m in ("none", "many")]
        jobs += [((n, m), {"flags": ["-header-filter=nomatch"]}) for n in ("hdr", "one") for m in ("hdr", "none", "error")]
        jobs += [((n, m), {"flags": ["-ignore-dirs=/%s0/" % n]}) for n in ("hdr", "one") for m in ("many", "none", "error")]
        with cf.ThreadPoolExecutor(8) as ex:
            for (h, o), (rc, got) in zip(jobs, ex.map(lambda j: standalone(j[0], **j[1]), jobs)):
                trans += len(h)
                want = [d for k, n in enumerate(h) for d in at(n, 0 if o.get("dup") else k)]
                fl = " ".join(o.get("flags", []))
                if "header-filter" in fl:
                    want = [d for d in want if not d[2].endswith(".h")]
                if "ignore-dirs" in fl:
                    want = [d for d in want if "/%s0/" % h[0] not in d[2]]
                if "env" in o:
                    want = [d[:5] + ("error" if d[0] == "clazy-qgetenv" else d[5],) for d in want]
                states.add(tuple(sorted(d[:2] for d in want)))
                if not same(want, got):
                    ck.violate("standalone %s %s" % (" ".join(h), {k: str(v).replace(tmp, "") for k, v in o.items()}),
                               {"want": want, "got": got, "exit": rc})
        ck.cov["standalone_sequences"] = len(jobs)

        # plugin: every input, through both channels, in a real compiler process, compiling or only checking syntax
        def plugin(x):
            n, ch, mode, rep = x
            d = tempfile.mkdtemp(prefix="p", dir=tmp)
            if SRC[n] is not None:
                open(d + "/x.cpp", "w").write(SRC[n].replace('"h.h"', '"h%s0.h"' % n))
            open(d + "/h%s0.h" % n, "w").write(HDR)
            if rep:
                open(d + "/x.cpp.clazy.yaml", "w").write("---\nMainSourceFile: 'old'\nDiagnostics: []\n...\n")
            args = clazy_args(*((["export-fixes"] if ch == "arg" else []) + [CHECKS]))
            p = subprocess.run([vbuild.CLANGXX, "-std=c++17", "-isystem", tmp + "/qt", "-Xclang", "-load", "-Xclang", b.plugin] + args + mode + ["x.cpp"], capture_output=True,
                               env=vbuild.clean_env({"CLAZY_EXPORT_FIXES": "1"} if ch == "env" else {}), cwd=d, timeout=300)
            r = load(d + "/x.cpp.clazy.yaml", lambda f: os.path.relpath(f if os.path.isabs(f) else os.path.join(d, f), d).replace(n + "0", ""))
            shutil.rmtree(d)
            return r
        pj = [(n, ch, mode, rep) for n in names for ch in ("arg", "env", "none") for mode in (["-fsyntax-only"], ["-c", "-o", "/dev/null"]) for rep in (0, 1)]
        with cf.ThreadPoolExecutor(8) as ex:
            for x, got in zip(pj, ex.map(plugin, pj)):
                trans += 1
                want = base[x[0]] if x[1] != "none" else []
                if x[1] == "none" and not x[3] and got is not None:
                    ck.violate("plugin exports unasked %s" % (x,), got)
                if x[3] and got == [] and not want:
                    continue
                if not same(want, got):
                    ck.violate("plugin %s" % (x,), {"want": want, "got": got})
        ck.cov["plugin_runs"] = len(pj)
        # real Qt sources: every kind of fix; the edits of the diagnostics against the exported ones
        C = corpus.load()
        if not T:
            C = [c for c in C if os.path.exists(corpus.path(c[0]) + ".fixed.expected") or os.path.exists(corpus.path(c[0]) + ".qt%d.fixed.expected" % c[1])]
            seen = set()
            C = [c for c in C if not (c[0] in seen or seen.add(c[0]))]
        allc = [c["name"] for c in json.load(open(vbuild.REPO + "/checks.json"))["checks"]]
        res = pool.run([{"args": corpus.flags(q) + clazy_args(",".join(allc)), "main": corpus.path(f), "files": {}} for f, q in C])

        def real(i):
            f, q = C[i]
            out = "%s/c%d.yaml" % (tmp, i)
            subprocess.run([b.standalone, "-checks=" + ",".join(allc), "-export-fixes=" + out, corpus.path(f), "--"] + corpus.flags(q), capture_output=True, env=vbuild.clean_env(), cwd="/", timeout=600)
            return load(out)
        nfix = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for i, got in enumerate(ex.map(real, range(len(C)))):
                want = expect(clazy_diags(res[i]), os.path.normpath)
                nfix += sum(len(d[4]) for d in want)
                trans += 1
                if not same(want, got):
                    w = [d for d in want if d not in (got or [])]
                    ck.violate("corpus %s:%d" % C[i], {"missing": w[:5], "extra": [d for d in got or [] if d not in want][:5]})
        ck.cov["corpus_files"] = len(C)
        ck.cov["corpus_edits"] = nfix
    finally:
        shutil.rmtree(tmp)
    ck.cov.update({"states": len(states), "transitions": trans, "traces_validated_against_impl": len(jobs) + len(pj) + len(C), "exhaustive": True})
    ck.sample(" ".join(hs[100]))
    ck.sample(pj[3])
    ck.finish()
