"""C05: the plugin, clazy-standalone and the clang-tidy module on the same sources with the same checks enabled: the same findings at the
same places, and the same edits. Enumerates (source, set of checks) pairs; for each, the three programs run and their outputs are compared."""
import concurrent.futures as cf
import itertools, json, os, re, shutil, subprocess, tempfile
import vbuild, corpus, tus, mockqt, positions
from drv import Pool, clazy_args, clazy_diags, check_of
from report import Check
import yamlfixes


def result(edits):
    """The edited files without white space."""
    out = {}
    for f in {e[0] for e in edits}:
        t = open(f, "rb").read()
        for _, o, l, x in sorted((e for e in edits if e[0] == f), key=lambda e: (e[1], e[2]), reverse=True):
            t = t[:o] + x.encode() + t[o + l:]
        out[f] = re.sub(rb"\s+", b"", t)
    return out


def main():
    ck = Check("C05", "model_checking")
    b = vbuild.build(("ClazyPlugin", "clazy-standalone", "ClazyClangTidy"))
    pool = Pool(b)
    T = ck.thorough()
    names = [c["name"] for c in json.load(open(vbuild.REPO + "/checks.json"))["checks"]]
    # the names, as the three programs see them
    lst = subprocess.run([vbuild.TIDY, "-load", b.tidy, "--list-checks", "-checks=-*,clazy-*"], capture_output=True, text=True, env=vbuild.clean_env()).stdout
    tidy_names = sorted(re.findall(r"^\s+clazy-(\S+)$", lst, re.M))
    if tidy_names != sorted(names):
        ck.violate("names in clang-tidy", {"missing": sorted(set(names) - set(tidy_names)), "extra": sorted(set(tidy_names) - set(names))})
    st = subprocess.run([b.standalone, "-list-checks", "-checks=" + ",".join(names)], capture_output=True, text=True, env=vbuild.clean_env()).stdout
    st_names = sorted({w for w in re.findall(r"^\s+([a-z][\w-]+)$", st, re.M)} & set(names))
    if st_names != sorted(names):
        ck.violate("names in clazy-standalone", {"missing": sorted(set(names) - set(st_names))})
    states = trans = 0
    tmp = tempfile.mkdtemp(prefix="c05-")
    try:
        for p, t in mockqt.files(tmp + "/qt").items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        open(tmp + "/h.h", "w").write(tus.HDR)
        open(tmp + "/pre.h", "w").write(positions.PRE)

        def tool(t, path, args, sub, out):
            if t == "standalone":
                cmd = [b.standalone, "-checks=" + ",".join(sub), "-export-fixes=" + out, path, "--"] + args
            else:
                cmd = [vbuild.TIDY, "-load", b.tidy, "--quiet", "-header-filter=.*", "-system-headers", "-checks=-*," + ",".join("clazy-" + x for x in sub), "-export-fixes=" + out, path, "--"] + args
            r = subprocess.run(cmd, capture_output=True, text=True, env=vbuild.clean_env(), cwd=tmp, timeout=600)
            found = []
            rx = re.compile(r"^(/.*?):(\d+):(\d+): (warning|error): (.*) \[((?:-Wclazy-|clazy-)[a-z0-9,-]+)\]$", re.M)
            for m in rx.finditer(re.sub(r"\n \[", " [", r.stdout + "\n" + r.stderr)):
                if m.group(1).startswith(("/usr/", tmp + "/qt/")):
                    continue            # clang-tidy leaves out whatever a system header's macro has a part in, unless it shows system headers
                for c in m.group(6).split(","):         # clang-tidy joins the same text of several checks
                    found.append((os.path.normpath(m.group(1)), int(m.group(2)), int(m.group(3)), re.sub("^-?W?clazy-", "", c), m.group(5).strip()))
            fx = sorted((d[0][6:], d[1], d[2], d[3], yamlfixes.canon(d[4])) for d in yamlfixes.load(out) or [])
            if os.path.exists(out):
                os.unlink(out)
            return r.returncode, sorted(found), fx

        def compare(cases, label):
            """cases: [(what, path, args, checks, compare edits)]"""
            nonlocal states, trans
            ref = pool.run([{"args": a + clazy_args(",".join(sub)), "main": p, "files": {}} for _, p, a, sub, _ in cases])
            with cf.ThreadPoolExecutor(8) as ex:
                fs = [(t, i, ex.submit(tool, t, cases[i][1], cases[i][2], cases[i][3], "%s/fix-%s-%d.yaml" % (tmp, t, i))) for i in range(len(cases)) for t in ("standalone", "tidy")]
                for t, i, f in fs:
                    what, p, a, sub, edits = cases[i]
                    states += 1
                    rc, found, fx = f.result()
                    r = ref[i]
                    if "crash" in r or rc < 0:
                        ck.violate("%s crash %s [%s]" % (t, what, ",".join(sub)[:200]), {"rc": rc, "plugin": r.get("crash")})
                        continue
                    want = sorted((d["file"], d["line"], d["col"], check_of(d), d["msg"][:d["msg"].rfind(" [-Wclazy-")].strip()) for d in clazy_diags(r))
                    if t == "tidy":         # clang-tidy itself reports the same text at the same place once
                        want, found = sorted(set(want)), sorted(set(found))
                    trans += len(want)
                    if found != want:
                        ck.violate("%s %s [%s]" % (t, what, ",".join(sub)[:200]), {"only plugin": [x for x in want if x not in found][:6], "only " + t: [x for x in found if x not in want][:6]})
                        continue
                    if edits:
                        wf = sorted((check_of(d), d["msg"][:d["msg"].rfind(" [-Wclazy-")], d["file"], d["off"], yamlfixes.canon([(x.get("file"), x.get("off"), x.get("len"), x["text"]) for x in d["fix"] if not x.get("macro") and not x.get("bad")])) for d in clazy_diags(r) if d.get("fix") and not any(x.get("macro") or x.get("bad") for x in d["fix"]))
                        inmacro = {(check_of(d), d["msg"][:d["msg"].rfind(" [-Wclazy-")], d["file"], d["off"]) for d in clazy_diags(r) if any(x.get("macro") or x.get("bad") for x in d.get("fix") or [])}
                        # edits which overlap other findings' edits: clang-tidy keeps neither
                        spots = [(e[0], e[1], e[1] + e[2]) for w in wf for e in w[4]]
                        clash = any(x[0] == y[0] and x[1] <= y[2] and y[1] <= x[2] for x, y in itertools.combinations(spots, 2))
                        gf = [x for x in fx if x[4] and x[:2] + (x[2], x[3]) not in inmacro]
                        if t == "tidy":         # it also tidies up the white space around removals, and joins the same text of several checks
                            shared = lambda x: len({check_of(d) for d in clazy_diags(r) if (d["file"], d["off"]) == (x[2], x[3])}) > 1
                            wf, gf = [[x[:4] + (result(x[4]),) for x in y if not shared(x)] for y in (wf, gf)]
                        if not (t == "tidy" and clash) and gf != wf:
                            ck.violate("%s edits %s [%s]" % (t, what, ",".join(sub)[:200]), {"only plugin": [x for x in wf if x not in gf][:4], "only " + t: [x for x in gf if x not in wf][:4]})
            ck.cov[label] = len(cases)
        # 1. small translation units: each check alone, the levels, everything
        U = {"A": tus.Q + tus.A_, "B": tus.Q + tus.B_, "M": tus.Q + tus.M_}
        for n, s in (("A", tus.A_), ("B", tus.B_)):
            for m, t in tus.variants(s):
                if m != "nobase" or T:
                    U[n + "-" + m] = tus.Q + t
        for n, (s, a, p) in tus.units(names).items():
            if n in ("skip", "excl", "empty") and not a:
                U["u-" + n] = s
        U["positions"] = '#include "qtmock.h"\n#include "pre.h"\n' + "".join("namespace n%d { %s }\n" % (i, p.replace("@", str(i)).replace("#", 'getenv("A")')) for i, p in enumerate(positions.P)) + "".join("namespace d%d { %s }\n" % (i, p.replace("@", str(i)).replace("#", "struct R { ~R() { delete p; } int *p; };")) for i, p in enumerate(positions.D))
        cases = []
        std = ["-std=c++20", "-Wno-everything", "-ferror-limit=0", "-isystem", tmp + "/qt"]
        lv = {"level%d" % l: [c["name"] for c in json.load(open(vbuild.REPO + "/checks.json"))["checks"] if isinstance(c["level"], int) and 0 <= c["level"] <= l] for l in range(3)}
        for n, s in U.items():
            os.makedirs("%s/%s" % (tmp, n))
            shutil.copy(tmp + "/h.h", "%s/%s/h.h" % (tmp, n))
            shutil.copy(tmp + "/pre.h", "%s/%s/pre.h" % (tmp, n))
            p = "%s/%s/x.cpp" % (tmp, n)
            open(p, "w").write(s)
            subs = [names] + list(lv.values()) if n in ("A", "B", "M") else [names]
            if n in ("A", "B", "M") or T:
                subs += [[c] for c in names]
            for sub in subs:
                cases.append((n, p, std, sub, len(sub) == 1))
        # a check's findings alone decide which single runs have something to compare
        compare(cases, "small")
        # 2. real Qt sources
        C = corpus.load() if T else corpus.small()
        cases = []
        for f, q in C:
            cases.append(("%s:%d" % (f, q), corpus.path(f), corpus.flags(q), names, True))
            if T:
                own = f.split("/")[0]
                if own in names:
                    cases.append(("%s:%d" % (f, q), corpus.path(f), corpus.flags(q), [own], True))
        compare(cases, "corpus")
    finally:
        shutil.rmtree(tmp)
    ck.cov.update({"states": states, "transitions": trans, "traces_validated_against_impl": states, "exhaustive": True})
    ck.sample({"small": list(U), "checks": len(names)})
    ck.finish()


if __name__ == "__main__":
    main()
