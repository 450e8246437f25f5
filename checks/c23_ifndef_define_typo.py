"""C23: ifndef-define-typo. Every pair of short names and every short sequence of directives, against a reference model of the
preprocessor and the edit distance."""
import itertools
import vbuild, batch
from drv import Pool
from report import Check

CHECK = "ifndef-define-typo"


def dist(a, b):
    """Edit distance by its recursive definition."""
    memo = {}

    def d(i, j):
        if i == 0 or j == 0:
            return i + j
        if (i, j) not in memo:
            memo[i, j] = d(i - 1, j - 1) if a[i - 1] == b[j - 1] else 1 + min(d(i - 1, j), d(i, j - 1), d(i - 1, j - 1))
        return memo[i, j]
    return d(len(a), len(b))


def similar(guard, name):
    return guard != "Q_CONSTRUCTOR_FUNCTION" and len(name) >= 4 and guard != name and dist(guard, name) <= 2


class PP:
    """A preprocessor for the directives used here; yields the lines which should get a warning."""

    def __init__(self):
        self.defs = {"YES"}
        self.stack = []     # [active before, taken, active now]
        self.guard = None
        self.out = []

    def active(self):
        return all(s[2] for s in self.stack)

    def saw(self, name, ln):
        if self.guard is None:
            return
        if name == self.guard and self.guard != "Q_CONSTRUCTOR_FUNCTION":
            self.guard = None
        elif similar(self.guard, name):
            self.out.append((ln, self.guard, name))

    def run(self, lines):
        for ln, l in enumerate(lines):
            w = l.replace("# ", "#").replace("(", " ").replace(")", " ").split()
            k = w[0] if w else ""
            on = self.active()
            if k in ("#ifndef", "#ifdef", "#if"):
                v = False
                if on:
                    if k == "#ifndef":
                        self.guard = w[1]
                        v = w[1] not in self.defs
                    elif k == "#ifdef":
                        self.guard = None
                        v = w[1] in self.defs
                    else:
                        v = self.cond(w[1:], ln)
                        self.guard = None
                self.stack.append([on, v, v])
            elif k in ("#elif", "#else"):
                s = self.stack[-1]
                if s[0]:
                    if k == "#else":
                        v = not s[1]
                    else:
                        v = False
                        if not s[1]:
                            v = self.cond(w[1:], ln)
                    s[1] = s[1] or v
                    s[2] = v
                    self.guard = None
                else:
                    s[2] = False
            elif k == "#endif":
                s = self.stack.pop()
                if s[0]:
                    self.guard = None
            elif k == "#define" and on:
                self.defs.add(w[1])
                self.saw(w[1], ln)
            elif k == "#undef" and on:
                self.defs.discard(w[1])
        return self.out

    def cond(self, w, ln):
        if w[0] == "defined":
            self.saw(w[1], ln)
            return w[1] in self.defs
        if w[0] == "!defined":
            self.saw(w[1], ln)
            return w[1] not in self.defs
        return w[0] != "0"


def main():
    ck = Check("C23", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    cases = []      # (key, lines)
    # Every pair of names over a small alphabet
    names = ["".join(p) for n in range(1, 6 if not T else 7) for p in itertools.product("AB", repeat=n)]
    names += ["".join(p) for p in itertools.product("_aZ", repeat=4)] if T else ["_aZ_", "aZ_a", "AZ_a", "__aZ", "aZ9a", "aZ9b"]
    for x, y in itertools.product(names, names):
        cases.append(["#ifndef " + x, "#define " + y, "#endif", "#undef " + y])
    # long names, edits at every position
    base = ["MY_LIBRARY_HEADER_H", "QT_X", "GL_FRAMEBUFFER_SRG", "Q_CONSTRUCTOR_FUNCTION", "F" * 300]
    for g in base:
        ed = set()
        pos = range(len(g) + 1) if len(g) < 50 else (0, 1, 149, 299, 300)
        for i in pos:
            one = {g[:i] + c + g[i:] for c in "X_"} | ({g[:i] + g[i + 1:], g[:i] + "Z" + g[i + 1:]} if i < len(g) else set())
            ed |= one
            for o in one:
                for j in (0, len(o) // 2, len(o)):
                    ed |= {o[:j] + "Q" + o[j:], o[:j] + o[j + 1:], o[:j] + "QQ" + o[j:], o[:j] + "W" + o[j + 1:]}
        for e in sorted(ed):
            if e and not e[0].isdigit():
                cases.append(["#ifndef " + g, "# define " + e, "#endif", "#undef " + e])
                cases.append(["#ifndef " + e, "#define %s 1" % g, "#endif", "#undef " + g])
    ck.cov["name_pairs"] = len(cases)
    # Every sequence of directives up to a bound
    sym = ["#ifndef GUARD_A", "#define GUARD_A", "#define GUARD_B", "#define OTHER", "#define GUARD_B(x) x", "#ifdef YES", "#ifdef NO", "#if 1", "#if 0", "#if defined(GUARD_B)", "#if !defined(GUARD_A)",
           "#elif 1", "#elif defined(GUARD_C)", "#else", "#endif", "#undef GUARD_A", "#ifndef GUARD_AB", "extern int CODE;", "#define GUARD_AB GUARD_A"]

    def wellformed(seq):
        st = []
        for s in seq:
            if s.startswith("#if"):
                st.append("i")
            elif s.startswith("#el"):
                if not st or st[-1] == "e":
                    return None
                if s.startswith("#else"):
                    st[-1] = "e"
            elif s.startswith("#endif"):
                if not st:
                    return None
                st.pop()
        return list(seq) + ["#endif"] * len(st)
    N = 5 if T else 4
    for n in range(1, N + 1):
        for tail in itertools.product(sym if n < 5 else [s for s in sym if "YES" not in s and "#if 1" not in s and "OTHER" not in s], repeat=n - 1):
            if n == N and not T and not any("GUARD_B" in s or "GUARD_AB" in s for s in tail):
                continue
            for head in ("#ifndef GUARD_A", "#define GUARD_A") if n < N else ("#ifndef GUARD_A",):
                s = wellformed((head,) + tail)
                if s:
                    cases.append(s)
    undef = ["#undef GUARD_A", "#undef GUARD_B", "#undef GUARD_AB", "#undef OTHER"]
    ck.cov["cases"] = len(cases)
    srcs, wants = [], []
    for i, c in enumerate(cases):
        lines = [l.replace("CODE", "code%d" % i) for l in c]
        srcs.append("\n".join(lines + (undef if any("GUARD_" in l for l in c) else [])) + "\n")
        wants.append([(ln, "Possible typo in define. %s vs %s" % (g, n)) for ln, g, n in PP().run(lines)])
    got = batch.run(pool, ["-std=c++17", "-w"], "#define YES 1\n", srcs, CHECK, per=2000)
    nw = 0
    for s, w, g in zip(srcs, wants, got):
        if isinstance(g, dict):
            ck.violate("batch " + s, g)
            continue
        o = [(l, m) for l, _, m, *_ in g]
        nw += bool(o)
        if sorted(o) != sorted(w):
            ck.violate(s.replace("\n", "; ")[:200], {"want": w, "got": o})
    ck.cov.update({"states": len(set(srcs)), "transitions": sum(s.count("\n") for s in srcs), "traces_validated_against_impl": len(srcs), "warned": nw, "exhaustive": True})
    ck.sample(srcs[1234])
    ck.sample(srcs[-5])
    ck.assumptions.append("all directives are in one file; #elifdef/#elifndef are not explored")
    ck.finish()
