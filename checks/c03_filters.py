"""C03: location filters. The unfiltered findings are fixed and known; every filter configuration must admit exactly those
findings that the reference model of the filters admits (by reported file and line)."""
import concurrent.futures as cf
import itertools, json, os, re, shutil, subprocess, tempfile
import vbuild
from drv import Pool, clazy_args, clazy_diags, check_of
from report import Check

# check -> supports ignore-included-files (checks.json "can_ignore_includes")
CHECKS = ["global-const-char-pointer", "raw-environment-function", "returning-void-expression", "ifndef-define-typo", "unused-result-check", "function-args-by-ref"]


def body(n, inc=""):
    return inc + '''const char *p%(n)s = "x"; bool r%(n)s = getenv("A");
void v%(n)s(); void w%(n)s() { return v%(n)s(); }
struct S%(n)s { int f() const; int a[100]; S%(n)s(const S%(n)s &); }; void u%(n)s(S%(n)s &s) { s.f(); }
int k%(n)s(S%(n)s s) { return s.a[0]; }
#ifndef AMACRO%(n)s
#define AMACRP%(n)s
#endif
int m%(n)s() { return MAC(v%(n)s()), 0; }
bool z%(n)s = SYSMAC("Q");
int MAINMAC%(n)s = 0;
''' % dict(n=n)


FOUND = [(0, CHECKS[0]), (0, CHECKS[1]), (1, CHECKS[2]), (2, CHECKS[4]), (3, CHECKS[5]), (5, CHECKS[3]), (7, CHECKS[1]), (8, CHECKS[1])]
PRO = 'extern "C" char *getenv(const char *);\n#define MAC(x) (x, getenv("B"))\n'
SYS = '#define SYSMAC(x) getenv(x)\n'


def program(root):
    """files, and the findings [(file, line, check)] of an unfiltered run in which system headers are not reported."""
    files = {"m/x.cpp": '#include <s.h>\n#include "a.h"\n#include "sub/b.h"\n' + body("m"), "d1/a.h": PRO + body("a"), "d1/sub/b.h": body("b"),
             "sys/s.h": SYS + 'extern "C" char *getenv(const char *);\n#define MAC(x) (x, getenv("B"))\n' + body("s").replace("SYSMAC", "getenv"),
             "d1/gsys.h": "#pragma GCC system_header\n" + body("g")}
    files["d1/sub/b.h"] = '#include "gsys.h"\n' + files["d1/sub/b.h"]
    base = []
    for f, off in (("m/x.cpp", 4), ("d1/a.h", 3), ("d1/sub/b.h", 2)):
        base += [(root + "/" + f, off + l, c) for l, c in FOUND]
    return {root + "/" + k: v for k, v in files.items()}, base


class Model:
    def __init__(self, root, base, can_ignore):
        self.main, self.base, self.can = root + "/m/x.cpp", base, can_ignore

    def admit(self, cfg):
        out = []
        for f, l, c in self.base:
            if cfg.get("onlyqt") and not cfg.get("qt"):
                continue
            if f != self.main and cfg.get("main_only") and self.can[c]:
                continue
            if cfg.get("ignore") and re.search(cfg["ignore"], f):
                continue
            if cfg.get("header") and f != self.main and not re.search(cfg["header"], f):
                continue
            if cfg.get("lines"):
                ok = False
                for e in cfg["lines"]:
                    if f.endswith(e["name"]) and (not e.get("lines") or any(a <= l <= b for a, b in e["lines"])):
                        ok = True
                if not ok:
                    continue
            if cfg.get("checks") and c not in cfg["checks"]:
                continue
            out.append((f, l, c))
        return sorted(out)


HEADER = [None, "", r"a\.h", "d1/", r"b\.h$", "nomatch", r"x\.cpp", r"(a|b)\.h", "sub", "s.h", "^a", "A.H"]
IGNORE = [None, "", "d1", "d1/sub", "/m/", "nomatch", "sys", ".*", r"a\.h$", r"(a|x)\.", "x$"]


def main():
    ck = Check("C03", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    meta = {c["name"]: c for c in json.load(open(os.path.join(vbuild.REPO, "checks.json")))["checks"]}
    can = {c: bool(meta[c].get("can_ignore_includes")) for c in CHECKS}
    ck.sample({"supports ignore-included-files": can})
    # --- plugin -------------------------------------------------------------------------------------------------------
    root = "/v"
    files, base = program(root)
    m = Model(root, base, can)
    cfgs = []
    for h, i, mo, (oq, qt) in itertools.product(HEADER, IGNORE, (False, True), ((False, False), (True, False), (True, True))):
        cfgs.append(dict(header=h, ignore=i, main_only=mo, onlyqt=oq, qt=qt))
    cfgs2 = [dict(c, checks=[x]) for c in cfgs for x in CHECKS if T or not c["onlyqt"] or c["header"] in (None, "d1/")]
    cfgs2 += [dict(c, checks=list(p)) for c in cfgs[::7] for p in itertools.combinations(CHECKS, 2)]
    allc = cfgs + cfgs2

    def job(c):
        pa = [",".join(c.get("checks") or CHECKS)]
        if c["main_only"]:
            pa.insert(0, "ignore-included-files")
        if c["onlyqt"]:
            pa.append("only-qt")
        return {"args": clazy_args(*pa) + ["-isystem", root + "/sys", "-I" + root + "/d1"] + (["-DQT_CORE_LIB"] if c["qt"] else []), "main": root + "/m/x.cpp", "files": files,
                "env": {"CLAZY_HEADER_FILTER": c["header"], "CLAZY_IGNORE_DIRS": c["ignore"]}}

    def judge(front, c, got, extra=""):
        want = m_.admit(c)
        outcomes.add(tuple(want))
        if sorted(got) != want:
            k = {x: y for x, y in c.items() if y not in (None, False)}
            ck.violate("%s %s%s" % (front, json.dumps(k, sort_keys=True), extra),
                       {"missing": [x for x in want if x not in got], "extra": [x for x in got if x not in want] or [x for x in set(got) if got.count(x) > want.count(x)]})
    outcomes = set()
    m_ = m
    for c, r in zip(allc, pool.run(map(job, allc))):
        if "crash" in r or r.get("nerr"):
            ck.violate("plugin crash/error " + json.dumps(c), str(r)[:400])
            continue
        judge("plugin", c, [(d["file"], d["line"], check_of(d)) for d in clazy_diags(r)])
    ck.cov["plugin_configurations"] = len(allc)
    # --- standalone: real files in a scratch directory ---------------------------------------------------------------
    tmp = tempfile.mkdtemp(prefix="c03-")
    try:
        files, base = program(tmp)
        files[tmp + "/m/x.cpp"] += '#line 100 "gen.y"\nconst char *pgg = "x";\n#line 200 "%s/d1/a.h"\nconst char *phh = "x";\n' % tmp
        m_ = Model(tmp, base, can)
        m_.base = base + [("gen.y", 100, CHECKS[0]), (tmp + "/d1/a.h", 200, CHECKS[0])]
        gen = {("gen.y", 100), (tmp + "/d1/a.h", 200)}
        for f, t in files.items():
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(t)
        # The lines of the main file presented under another name stay in the main file for the file filters,
        # and carry the presented name for the line filter.
        orig = m_.admit

        def admit(c):
            c2 = dict(c)
            out = []
            for f, l, ch in m_.base:
                one = Model(tmp, [(f, l, ch)], can)
                if (f, l) in gen:
                    one.base = [(one.main, l, ch)]
                    if not one.admit(dict(c2, lines=None)):
                        continue
                    one.base = [(f, l, ch)]
                    one.main = f
                    if not one.admit(dict(c2, ignore=None, header=None, main_only=False)):
                        continue
                    out.append((f, l, ch))
                else:
                    out += one.admit(c2)
            return sorted(out)
        m_.admit = admit
        L = 4  # first body line of the main file
        names = ["x.cpp", "a.h", "/m/x.cpp", "b.h", "other.cpp", tmp + "/d1/a.h", "gen.y", "h"]
        specs = [None, [], [[L, L]], [[L + 1, L + 1]], [[1, L - 1]], [[1, L]], [[L + 1, 999]], [[1, L - 1], [L + 1, 10]], [[9, 3]], [[L + 3, L + 5]], [[2, 3], [8, 8], [100, 200]], [[101, 200]]]
        ents = [dict(name=n, **({} if s is None else {"lines": s})) for n in names for s in specs]
        docs = [[e] for e in ents]
        few = ents if T else [e for e in ents if e["name"] in ("x.cpp", "a.h", "h") and e.get("lines") in (None, [[L, L]], [[L + 1, 999]], [[1, L - 1], [L + 1, 10]])]
        docs += [[x, y] for x, y in itertools.product(few, few) if not T or few.index(x) < 60]
        # every order of up to three ranges, disjoint, adjacent and overlapping ones
        rs = [[L, L], [L + 2, L + 2], [L + 1, L + 1], [1, L + 1], [L + 1, 999]]
        docs += [[{"name": "x.cpp", "lines": list(p)}] for n in (2, 3) for p in itertools.permutations(rs, n)]
        docs += [[{"name": "x.cpp", "lines": [x]}, {"name": "/m/x.cpp", "lines": [y]}] for x, y in itertools.permutations(rs, 2)]
        sc = [dict(lines=d) for d in docs]
        some = [docs[0], docs[14], docs[2], docs[-1], None]
        for h, i, mo, (oq, qt), d in itertools.product([None, "d1/", r"b\.h$", "nomatch"], [None, "d1/sub", "/m/"], (False, True), ((False, False), (True, False), (True, True)), some):
            sc.append(dict(header=h, ignore=i, main_only=mo, onlyqt=oq, qt=qt, lines=d))
        # options and environment: the option wins over the variable
        for h, eh, i, ei in itertools.product([None, r"a\.h"], [None, r"b\.h"], [None, "sub"], [None, "/m/"]):
            sc.append(dict(header=h or eh, ignore=i or ei, env={"CLAZY_HEADER_FILTER": eh, "CLAZY_IGNORE_DIRS": ei}, opt=(h, i)))

        def runsa(c):
            cmd = [b.standalone, "-checks=" + ",".join(CHECKS)]
            h, i = c.get("opt", (c.get("header"), c.get("ignore")))
            if h:
                cmd.append("-header-filter=" + h)
            if i:
                cmd.append("-ignore-dirs=" + i)
            if c.get("main_only"):
                cmd.append("-ignore-included-files")
            if c.get("onlyqt"):
                cmd.append("-only-qt")
            if c.get("lines"):
                cmd.append("-line-filter=" + json.dumps(c["lines"]))
            cmd += [tmp + "/m/x.cpp", "--", "-isystem", tmp + "/sys", "-I" + tmp + "/d1"] + (["-DQT_CORE_LIB"] if c.get("qt") else [])
            e = {k: v for k, v in c.get("env", {}).items() if v}
            return subprocess.run(cmd, capture_output=True, text=True, env=vbuild.clean_env(e), timeout=300)
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(runsa, sc))
        rx = re.compile(r"^(.*?):(\d+):(\d+): (warning|error): .*\[-Wclazy-([a-z0-9-]+)\]$")
        for c, o in zip(sc, outs):
            if o.returncode not in (0,):
                ck.violate("standalone status %d %s" % (o.returncode, json.dumps(c)[:300].replace(tmp, "")), [l for l in (o.stdout + o.stderr).splitlines() if 'error' in l][:3])
                continue
            got = [(mm.group(1), int(mm.group(2)), mm.group(5)) for mm in map(rx.match, (o.stdout + o.stderr).splitlines()) if mm]
            c = json.loads(json.dumps(c))
            want = m_.admit(c)
            outcomes.add(tuple(want))
            if sorted(got) != want:
                k = {x: y for x, y in c.items() if y not in (None, False)}
                ck.violate(("standalone " + json.dumps(k, sort_keys=True)).replace(tmp, ""), {"missing": [x for x in want if x not in got], "extra": [x for x in got if x not in want]})
        ck.cov["standalone_configurations"] = len(sc)
    finally:
        shutil.rmtree(tmp)
    n = len(allc) + len(sc)
    ck.cov.update({"states": len(outcomes), "transitions": n, "traces_validated_against_impl": n, "exhaustive": True})
    ck.sample(allc[123])
    ck.sample(json.loads(json.dumps(sc[77]).replace(tmp, "<tmp>")))
    ck.finish()
