"""Applies the edits of a check to many small cases at once, and says what became of each."""
from drv import clazy_args, clazy_diags, check_of


class Conflict(Exception):
    pass


def apply(src, edits):
    """src: bytes; edits: (offset, length, text). Several insertions at one place are allowed, if their order is the one given."""
    out, pos = [], 0
    for o, l, t in sorted(dict.fromkeys(edits), key=lambda e: (e[0], e[1])):
        if o < pos:
            raise Conflict("overlapping edits at %d: %r" % (o, t))
        out += [src[pos:o], t.encode()]
        pos = o + l
    return b"".join(out + [src[pos:]])


def analyse(pool, args, prologue, cases, check, per=150, files=None, main="/v/x.cpp", epilogue="", trust=False):
    """Per case {"errors": [...]}, {"crash": ...} or {"warnings": [(line, message, [edit])], "outer": [edits elsewhere]}"""
    out = [None] * len(cases)
    groups = [list(range(i, min(i + per, len(cases)))) for i in range(0, len(cases), per)]
    P = prologue.encode()
    alone = set()
    while groups:
        jobs, spans = [], []
        for g in groups:
            txt, sp = P, []
            for i in g:
                c = cases[i] if isinstance(cases[i], bytes) else cases[i].encode()
                c = c if c.endswith(b"\n") else c + b"\n"
                sp.append((len(txt), len(txt) + len(c), txt.count(b"\n") + 1, txt.count(b"\n") + 1 + c.count(b"\n")))
                txt += c
            spans.append(sp)
            f = dict(files or {})
            f[main] = (txt + epilogue.encode()).decode()
            jobs.append({"args": list(args) + ["-ferror-limit=0"] + clazy_args(check), "main": main, "files": f, "timeout": 300})
        res = pool.run(jobs)
        nxt = []
        for g, sp, r in zip(groups, spans, res):
            if "crash" in r:
                if len(g) == 1:
                    out[g[0]] = {"crash": r["crash"]}
                else:
                    k = max(1, len(g) // 8)
                    nxt += [g[i:i + k] for i in range(0, len(g), k)]
                continue
            err = {}
            lost = []
            for d in r["diags"]:
                if d["level"] == "note" and lost and lost[-1] and d.get("file") == main:
                    k = [i for i, s in zip(g, sp) if s[2] <= d["line"] < s[3]]  # an error in a header, requested here
                    if k:
                        err.setdefault(k[0], []).append(lost.pop()[2])
                if d["level"] in ("error", "fatal") and "[-Wclazy-" not in d["msg"]:
                    k = [i for i, s in zip(g, sp) if s[2] <= d["line"] < s[3]] if d.get("file") == main else []
                    if k:
                        err.setdefault(k[0], []).append(d["msg"])
                    else:
                        lost.append((d.get("file"), d.get("line"), d["msg"]))
            if err or lost:
                if len(g) == 1:
                    out[g[0]] = {"errors": (err.get(g[0]) or []) + [x[2] for x in lost]}
                    continue
                rest = [i for i in g if i not in err]
                if err:
                    if trust:
                        for i in err:
                            out[i] = {"errors": err[i]}
                    else:
                        nxt += [[i] for i in err] if len(err) < 40 else [list(err)[i:i + 8] for i in range(0, len(err), 8)]
                    if rest:
                        nxt.append(rest)
                else:
                    k = max(1, len(g) // 8)
                    nxt += [g[i:i + k] for i in range(0, len(g), k)]
                continue
            ds = clazy_diags(r)
            for i in g:
                out[i] = {"warnings": [], "outer": []}
            for d in ds:
                k = [(i, s) for i, s in zip(g, sp) if d.get("file") == main and s[2] <= d["line"] < s[3]]
                if not k:
                    continue
                i, s = k[0]
                ed, outer = [], []
                for e in d.get("fix") or []:
                    if e.get("file") == main and e.get("off") is not None and s[0] <= e["off"] and e["off"] + e["len"] <= s[1]:
                        ed.append((e["off"] - s[0], e["len"], e["text"]))
                    else:
                        outer.append((e.get("file"), e.get("off"), e.get("len"), e["text"], bool(e.get("macro"))))
                out[i]["warnings"].append((d["line"] - s[2], d["msg"][:d["msg"].rfind(" [-Wclazy-")], ed, outer))
        groups = nxt
    return out


def distinct(ws):
    """The warnings whose edits are not all inside the edits of another warning"""
    inside = lambda a, b: b[0] <= a[0] and a[0] + a[1] <= b[0] + b[1] and a[1] < b[1] and a[1]
    return [w for w in ws if not any(v is not w and w[2] and all(any(inside(e, f) for f in v[2]) for e in w[2]) for v in ws)] if len(ws) < 20 else ws


def fix(pool, args, prologue, cases, check, per=150, files=None, outer=None, main="/v/x.cpp", epilogue=""):
    """Per case a dict: skipped (does not compile as it is), or before (warnings), fixed (bytes), and problem (None or what went wrong).
    outer(edit) says whether an edit elsewhere is expected; such edits are not applied."""
    first = analyse(pool, args, prologue, cases, check, per, files, main, epilogue, True)
    out = []
    again = []
    for i, (c, r) in enumerate(zip(cases, first)):
        if "warnings" not in r:
            out.append({"skipped": r})
            continue
        o = {"before": r["warnings"], "problem": None, "fixed": None}
        out.append(o)
        ws = r["warnings"]
        ws = distinct(ws)
        edits = [e for w in ws for e in w[2]]
        far = [e for w in r["warnings"] for e in w[3] if not (outer and outer(e))]
        if far:
            o["problem"] = "edits elsewhere: %s" % far[:2]
            continue
        if not edits:
            continue
        src = c.encode() if isinstance(c, str) else c
        src = src if src.endswith(b"\n") else src + b"\n"
        try:
            o["fixed"] = apply(src, edits)
        except Conflict as e:
            o["problem"] = str(e)
            continue
        again.append(i)
    rounds = 3
    while again and rounds:
        rounds -= 1
        second = analyse(pool, args, prologue, [out[i]["fixed"] for i in again], check, per, files, main, epilogue, True)
        nxt = []
        for i, r in zip(again, second):
            o = out[i]
            if "warnings" not in r:
                o["problem"] = "does not compile: %s" % (r.get("errors") or r)[:2]
                continue
            left = [w for w in r["warnings"] if w[2]]
            if left and rounds:  # what an edit makes visible is edited too, but that has to end
                try:
                    o["fixed"] = apply(o["fixed"], [e for w in distinct(left) for e in w[2]])
                    nxt.append(i)
                except Conflict as e:
                    o["problem"] = str(e)
            elif left or len(r["warnings"]) > sum(1 for w in o["before"] if not w[2]):
                o["problem"] = "still warned about: %s" % [w[1] for w in (left or r["warnings"])][:2]
        again = nxt
    # Errors are attributed by their line; confirm some of them alone.
    sus = [o for o in out if o.get("problem") and o["problem"].startswith("does not compile")]
    for k in range(0, len(sus), 16):
        ok = 0
        for o, r in zip(sus[k:k + 16], analyse(pool, args, prologue, [o["fixed"] for o in sus[k:k + 16]], check, 1, files, main, epilogue)):
            if "errors" in r:
                ok += 1
                o["confirmed"] = True
            elif "warnings" in r:
                o["problem"] = None
        if ok:
            for o in sus[k + 16:]:
                o["problem"] = None
            break
    return out
