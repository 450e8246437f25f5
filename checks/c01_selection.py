"""C01: the enabled set equals the reference selection model, for all token sequences over all channels."""
import itertools, json, os, subprocess, concurrent.futures as cf
import vbuild
from drv import Pool, clazy_args
from report import Check

LEVELN = {"level0": 0, "level1": 1, "level2": 2}


def load_meta():
    meta = json.load(open(os.path.join(vbuild.REPO, "checks.json")))
    lvl, fix = {}, {}
    for c in meta["checks"]:
        lvl[c["name"]] = c["level"]
        for f in c.get("fixits") or []:
            fix["fix-" + f["name"]] = c["name"]
    return lvl, fix


class Model:
    """Reference semantics of a selection (docs: README 'Selecting which checks to enable')."""

    def __init__(self):
        self.lvl, self.fix = load_meta()

    def level(self, n):
        return {c for c, l in self.lvl.items() if 0 <= l <= n}

    def tokens(self, toks):
        en, dis, bad = set(), set(), []
        for t in toks:
            if t in self.lvl:
                en.add(t)
            elif t in self.fix:
                en.add(self.fix[t])
            elif t in LEVELN:
                en |= self.level(LEVELN[t])
            elif t.startswith("no-") and t[3:] in self.lvl:
                dis.add(t[3:])
            else:
                bad.append(t)
        return en, dis, bad

    def select(self, arglevel, cli, env):
        """Returns (set | 'reject' | None when the statement leaves it open, invalid names)."""
        en, dis, bad = set(), set(), []
        if cli is not None:
            en, dis, bad = self.tokens(cli)
            if not en and not dis:
                return "reject", bad
        e2, d2, b2 = ([set(), set(), []] if env is None else self.tokens(env))
        if env == ["all_checks"]:
            e2, d2, b2 = self.level(2), set(), []
        explicit = en | e2
        dis = dis | d2
        if arglevel is not None:
            explicit = explicit | self.level(LEVELN[arglevel])
        if not explicit:
            return self.level(1) - dis, bad + b2
        if not (explicit - dis):
            return None, bad + b2
        # A list whose own checks are all disabled again by itself counts as enabling nothing or something: open.
        for (e, d) in ((en, dis), (e2, d2)):
            if e and not (e - d):
                return None, bad + b2
        return explicit - dis, bad + b2


def main():
    ck = Check("C01", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    m = Model()
    bylevel = {l: sorted(c for c, x in m.lvl.items() if x == l) for l in (-1, 0, 1, 2)}
    A = ["level0", "level1", "level2", "qenums", "foreach", "rule-of-three", "qt-keywords", "reserve-candidates",
         "fix-qgetenv", "fix-range-loop-add-ref", "fix-fromCharPtrAllocations", "fix-missing-qstringref",
         "no-qenums", "no-foreach", "no-rule-of-three", "no-qt-keywords", "no-qgetenv", "no-module-include", "no-no-module-include",
         "bogus", "level3", "no-bogus", "fix-bogus", ""]
    B = ["level0", "level2", "qt-keywords", "fix-qgetenv", "foreach", "no-foreach", "no-qgetenv", "bogus"]
    conf = []  # (arglevel, cli, env)
    depth = 4 if ck.thorough() else 3
    S = A if ck.thorough() else A[:]
    for n in (1, 2):
        conf += [(None, list(t), None) for t in itertools.product(A, repeat=n)]
        conf += [(None, None, list(t)) for t in itertools.product(A, repeat=n)]
    sub = [t for t in A if t not in ("level3", "fix-bogus", "no-bogus", "reserve-candidates", "no-no-module-include")]
    conf += [(None, list(t), None) for t in itertools.product(A if ck.thorough() else sub, repeat=3)]
    conf += [(None, None, list(t)) for t in itertools.product(A if ck.thorough() else B, repeat=3)]
    if ck.thorough():
        conf += [(None, list(t), None) for t in itertools.product(sub[::2] + ["no-foreach", "bogus"], repeat=4)]
    # Both channels, and the separate level argument.
    one = [None] + [[t] for t in A]
    two = one + [list(t) for t in itertools.product(B, repeat=2)]
    conf += [(None, c, e) for c in two for e in two if c and e]
    for L in ("level0", "level1", "level2"):
        conf += [(L, c, e) for c in one for e in one]
        conf += [(L, list(c), None) for c in itertools.product(B, repeat=2)]
    conf += [(None, None, None), (None, None, ["all_checks"]), (None, ["qt-keywords"], ["all_checks"])]
    # Every name of every kind, alone and against a level.
    for c in sorted(m.lvl):
        conf += [(None, [c], None), (None, None, [c]), (None, ["level2", "no-" + c], None), (None, ["no-" + c, "level2"], None), ("level2", ["no-" + c], None), ("level2", None, ["no-" + c]),
                 (None, ["no-" + c], None), (None, [c, "level0"], None)]
        conf += [(None, [c], ["no-" + bylevel[0][0]])]
        conf += [(None, [c.upper()], None), (None, [c[:-1]], None), (None, [c + "x"], None)]
    for f in sorted(m.fix):
        conf += [(None, [f], None), (None, None, [f]), (None, [f, m.fix[f]], None), (None, [f, "no-" + m.fix[f], "foreach"], None), (None, [f, "no-" + f], None), (None, [f[4:], "level0"], None)]
    seen, uniq = set(), []
    for c in conf:
        k = json.dumps(c)
        # ',' splitting drops one trailing empty token and cannot express a single empty list on the command line
        if c[1] == [""] or k in seen or (c[1] and len(c[1]) == 1 and c[1][0] in LEVELN and c[0]):
            continue
        seen.add(k)
        uniq.append(c)
    conf = uniq

    def drop(ts):
        # the separator form cannot distinguish "a," from "a"
        return None if ts is None else (ts[:-1] if ts and ts[-1] == "" else ts)

    jobs = []
    for (L, cli, env) in conf:
        pa = ["print-requested-checks"]
        if L:
            pa.append(L)
        if cli is not None:
            pa.append(",".join(cli))
        j = {"args": clazy_args(*pa), "main": "/v/x.cpp", "files": {"/v/x.cpp": "int x;\n"}, "stderr": True,
             "env": {"CLAZY_CHECKS": None if env is None else ",".join(env)}}
        jobs.append(j)
    # The quoted form of the environment variable.
    quoted = [(None, None, list(t)) for t in itertools.product(B, repeat=2)]
    for (L, cli, env) in quoted:
        jobs.append({"args": clazy_args("print-requested-checks"), "main": "/v/x.cpp", "files": {"/v/x.cpp": "int x;\n"}, "stderr": True,
                     "env": {"CLAZY_CHECKS": '"' + ",".join(env) + '"'}})
    allconf = conf + quoted
    res = pool.run(jobs)
    outcomes = set()
    opened = 0

    def judge(front, c, got, names, err):
        nonlocal opened
        L, cli, env = c
        want, bad = m.select(L, drop(cli), drop(env))
        key = "%s level=%s list=%s env=%s" % (front, L, None if cli is None else ",".join(cli), None if env is None else ",".join(env))
        if want is None:
            opened += 1
            return
        outcomes.add("reject" if want == "reject" else tuple(sorted(want)))
        if want == "reject":
            if got != "reject":
                ck.violate(key, {"want": "rejected", "got": got if isinstance(got, str) else sorted(got)[:20]})
        else:
            if got == "reject":
                ck.violate(key, {"want": sorted(want)[:20], "got": "rejected", "stderr": err[:300]})
            elif set(names) != want:
                ck.violate(key, {"missing": sorted(want - set(names)), "extra": sorted(set(names) - want)})
            elif len(names) != len(set(names)):
                ck.violate(key, {"duplicates": sorted(n for n in set(names) if names.count(n) > 1)})
        inv = [l for l in err.splitlines() if l.startswith("Invalid")]
        for t in set(bad) - {""}:
            if not any(l.rstrip().endswith(" " + t) for l in inv):
                ck.violate(key + " [report]", {"not reported as invalid": t, "stderr": inv})
        for l in inv:
            if l.split(":", 1)[-1].strip() not in bad + [""]:
                ck.violate(key + " [report]", {"reported as invalid": l})

    for c, r in zip(allconf, res):
        if "crash" in r:
            ck.violate("crash " + json.dumps(c), r)
            continue
        err = r.get("stderr", "")
        line = [l for l in err.splitlines() if l.startswith("Requested checks: ")]
        if line:
            names = [x for x in line[0][len("Requested checks: "):].split(", ") if x]
            got = set(names)
        else:
            names, got = [], "reject"
        judge("plugin", c, got, names, err)
    ck.cov["plugin_selections"] = len(allconf)

    # clazy-standalone -list-checks: no list means level1
    sa = [(None, list(t), None) for n in (1, 2) for t in itertools.product(A, repeat=n) if ck.thorough() or n == 1 or (t[0] in sub[1::2] + ["no-foreach"] and t[1] in sub)]
    sa += [(None, c, e) for c in ([None] + [[t] for t in B]) for e in ([None] + [[t] for t in B])]
    sa += [(None, [c], None) for c in sorted(m.lvl)] + [(None, [f], None) for f in sorted(m.fix)]
    sa = [c for c in sa if not (c[1] and c[1][-1] == "")]

    def one_sa(c):
        L, cli, env = c
        cmd = [b.standalone, "-list-checks"]
        if cli is not None:
            cmd.append("-checks=" + ",".join(cli))
        cmd += ["/dev/null", "--"]
        e = vbuild.clean_env({} if env is None else {"CLAZY_CHECKS": ",".join(env)})
        return subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=120)

    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one_sa, sa))
    for c, o in zip(sa, outs):
        L, cli, env = c
        cc = (L, cli, env) if cli is not None else ("level1", None, env)
        if o.returncode < 0:
            ck.violate("standalone crash " + json.dumps(c), o.stderr[-300:])
            continue
        if "Enabled checks:" in o.stdout:
            names = [l.strip() for l in o.stdout.split("Enabled checks:")[1].splitlines() if l.strip()]
            judge("standalone", cc, set(names), names, o.stderr)
        else:
            judge("standalone", cc, "reject", [], o.stderr)
    ck.cov["standalone_selections"] = len(sa)

    # The selection is what runs: one program with a finding for a check of each level, all subsets of those checks.
    prog = """struct P { virtual ~P(); virtual int v(); P(); }; P::P() { v(); }
struct R { ~R(); int *p; }; struct R2 { R2 &operator=(const R2 &); int *p; }; void r2(R2 a) { R2 b(a); }
const char *g = "x";
extern "C" char *getenv(const char *); class QByteArray { public: QByteArray(); int toInt() const; bool isEmpty() const; bool isNull() const; };
QByteArray qgetenv(const char *); bool q() { return qgetenv("A").isEmpty(); } void h() { getenv("X"); }
struct B { B(const char *); int x[100]; }; void big(B b);
struct T { int f(); }; struct Y { Y(); ~Y(); };
void ret(); void ret2() { return ret(); }
"""
    want_by = {}
    rs = pool.run([{"args": clazy_args(c), "main": "/v/x.cpp", "files": {"/v/x.cpp": prog}} for c in sorted(m.lvl)])
    from drv import clazy_diags, check_of
    for c, r in zip(sorted(m.lvl), rs):
        for d in clazy_diags(r):
            if check_of(d) != c:
                ck.violate("runs " + c, {"only enabled": c, "reported": check_of(d)})
        if clazy_diags(r):
            want_by[c] = sorted(d["line"] for d in clazy_diags(r))
    trig = sorted(want_by)
    ck.sample({"trigger checks": trig})
    sel = []
    for n in (1, 2, 3):
        for t in itertools.product([x for x in ["level0", "level1", "level2"]] + trig + ["no-" + x for x in trig], repeat=n):
            if n < 3 or (ck.thorough() or (t[0].startswith("level"))):
                sel.append(list(t))
    rs = pool.run([{"args": clazy_args(",".join(s)), "main": "/v/x.cpp", "files": {"/v/x.cpp": prog}} for s in sel])
    for s, r in zip(sel, rs):
        want, _ = m.select(None, s, None)
        if not isinstance(want, set):
            continue
        got = sorted((check_of(d), d["line"]) for d in clazy_diags(r))
        exp = sorted((c, l) for c in want & set(trig) for l in want_by[c])
        if got != exp:
            ck.violate("runs " + ",".join(s), {"want": exp, "got": got})
    ck.cov["executed_selections"] = len(sel)
    n = len(allconf) + len(sa) + len(sel)
    ck.cov["states"] = len(outcomes)
    ck.cov["transitions"] = n
    ck.cov["traces_validated_against_impl"] = n
    ck.cov["open_cases_not_judged"] = opened
    ck.cov["exhaustive"] = True
    ck.cov["build_cold"] = b.cold
    ck.cov["build_seconds"] = round(b.seconds, 1)
    ck.assumptions += ["levels and fix-it names are those of checks.json (the published metadata)",
                       "a list that enables a check and disables every check it enables is left open (not judged)"]
    for c in (allconf[5], allconf[900], sa[10]):
        ck.sample(c)
    ck.finish()
