"""Exported fixes (YAML) and sets of edits."""
import os
import yaml


def load(path, rel=lambda f: f):
    if not os.path.exists(path):
        return None
    y = yaml.safe_load(open(path))
    out = []
    for d in y["Diagnostics"]:
        m = d["DiagnosticMessage"]
        bd = d.get("BuildDirectory") or ""
        ab = lambda f: rel(os.path.normpath(os.path.join(bd, f)))
        ed = [(ab(r["FilePath"]), r["Offset"], r["Length"], r["ReplacementText"]) for r in m.get("Replacements") or []]
        if d["DiagnosticName"].startswith("clazy-"):
            out.append((d["DiagnosticName"], m["Message"], ab(m["FilePath"]), m["FileOffset"], ed, d["Level"].lower()))
    return out


def canon(edits):
    """Joins edits that touch: [(file, off, len, text)] -> the same changes in maximal pieces."""
    out = []
    for f, o, l, t in sorted(set(edits), key=lambda e: (e[0], e[1], e[1] + e[2])):
        if out and out[-1][0] == f and out[-1][1] + out[-1][2] >= o:
            p = out[-1]
            out[-1] = (f, p[1], max(p[1] + p[2], o + l) - p[1], p[3] + t)
        else:
            out.append((f, o, l, t))
    return out
