"""Real-Qt sources: the test sources of /repo (tests/<check>/*.cpp) that compile without errors with one common set of flags.
The list of usable (file, Qt version) pairs is lib/corpus.json, written by `python3 lib/corpus.py`; only inputs are taken from
/repo/tests, never expectations."""
import json, os, sys
import vbuild
from drv import QT5, QT6, clazy_args

HERE = os.path.dirname(os.path.abspath(__file__))
TESTS = os.path.join(vbuild.REPO, "tests")


def flags(qt, std=None):
    base = QT5 if qt == 5 else QT6
    a = ["-std=" + (std or ("c++17" if qt == 5 else "c++20")), "-fPIC", "-Wno-everything", "-isystem", base]
    for m in sorted(os.listdir(base)):
        if os.path.isdir(os.path.join(base, m)):
            a += ["-isystem", os.path.join(base, m)]
    return a


def load():
    """[(file relative to tests, qt)]"""
    return [tuple(x) for x in json.load(open(os.path.join(HERE, "corpus.json")))]


def small():
    """One (file, Qt version) per check directory, main.cpp where there is one."""
    pick, out = {}, []
    for f, q in load():
        pick.setdefault(f.split("/")[0], []).append((f, q))
    for i, (d, v) in enumerate(sorted(pick.items())):
        v.sort(key=lambda x: (not x[0].endswith("/main.cpp"), (x[1] == 5) == (i % 2 == 0), x))
        out.append(v[0])
    return out


def path(f):
    return os.path.join(TESTS, f)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    from drv import Pool
    b = vbuild.build()
    import subprocess
    fs = sorted(f[6:] for f in subprocess.check_output(["git", "-C", vbuild.REPO, "ls-files", "tests"], text=True).split() if f.endswith(".cpp") and "docker" not in f and "_fixed" not in f)
    jobs = [(f, q) for f in fs for q in (5, 6)]
    res = Pool(b).run([{"args": flags(q), "main": path(f), "files": {}} for f, q in jobs])
    ok = [j for j, r in zip(jobs, res) if r.get("nerr", 1) == 0]
    bad = [(j, [d["msg"] for d in r.get("diags", []) if d["level"] in ("error", "fatal")][:1]) for j, r in zip(jobs, res) if r.get("nerr", 1)]
    json.dump(ok, open(os.path.join(HERE, "corpus.json"), "w"), indent=0)
    print(len(ok), "of", len(jobs))
    for x in bad:
        print(x)
