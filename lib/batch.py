"""Packs many small cases into few translation units and maps the diagnostics of one check back to the cases by line."""
from drv import clazy_args, clazy_diags, check_of


def run(pool, args, prologue, cases, check, per=200, epilogue="", files=None, main="/v/x.cpp", extra_plugin=(), main_files=None, keep=None):
    """cases: list of code strings. Returns, per case, a list of (relative line, column, message without check suffix, fix, macro) or
    {"crash"/"errors": ...} when the translation unit of the case alone fails."""
    def build(ix):
        txt, spans, ln = prologue, [], prologue.count("\n") + 1
        for i in ix:
            c = cases[i] if cases[i].endswith("\n") else cases[i] + "\n"
            n = c.count("\n")
            spans.append((ln, ln + n))
            ln += n
            txt += c
        return txt + epilogue, spans

    def job(ix):
        t, _ = build(ix)
        f = dict(files or {})
        f[main] = t
        return {"args": list(args) + clazy_args(*(tuple(extra_plugin) + (check,))), "main": main, "files": f, "timeout": 300}
    out = [None] * len(cases)
    groups = [list(range(i, min(i + per, len(cases)))) for i in range(0, len(cases), per)]
    while groups:
        res = pool.run([job(g) for g in groups])
        nxt = []
        for g, r in zip(groups, res):
            bad = "crash" in r or any(d["level"] in ("error", "fatal") and "[-Wclazy-" not in d["msg"] for d in r["diags"])
            if bad:
                if len(g) == 1:
                    out[g[0]] = {"crash": r["crash"]} if "crash" in r else {"errors": [d["msg"] for d in r["diags"] if d["level"] in ("error", "fatal")][:3]}
                else:
                    k = max(1, len(g) // 8)
                    nxt += [g[i:i + k] for i in range(0, len(g), k)]
                continue
            spans = build(g)[1]
            for i in g:
                out[i] = []
            for d in clazy_diags(r):
                if d.get("file") != main:
                    continue
                if keep and check_of(d) != keep:
                    continue
                for i, (a, b) in zip(g, spans):
                    if a <= d["line"] < b:
                        out[i].append((d["line"] - a, d["col"], d["msg"][:d["msg"].rfind(" [-Wclazy-")], d.get("fix"), d.get("macro")))
        groups = nxt
    return out
