"""mkseed.seed(id, property, edits, demo, needs, breaks, files): writes a planted bug below seeded/ (tools/seedtest.sh confirms it)."""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; L=/usr/lib/llvm-20/bin
T=$(mktemp -d) || exit 99; trap 'rm -r "$T"' EXIT
PLUG="-Xclang -load -Xclang $R/_build/lib/ClazyPlugin.so -Xclang -add-plugin -Xclang clazy"
# clz CHECKS ARGS...: compiles with the plugin, prints the diagnostics
clz() { local c=$1; shift; "$L/clang++" -std=c++17 -fsyntax-only $PLUG -Xclang -plugin-arg-clazy -Xclang "$c" "$@" 2>&1; }
SA=$R/_build/bin/clazy-standalone
fail() { echo "FAIL: $*"; exit 1; }
cd "$T" || exit 99
'''


def seed(id, prop, edits, demo, needs, breaks, files=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    for f in sorted({e[0] for e in edits}):
        a = open("/repo/" + f).read()
        b = a
        for g, old, new in edits:
            if g == f:
                assert b.count(old) == 1, (id, f, old, b.count(old))
                b = b.replace(old, new)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(PRE + demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
