"""C02: suppression comments, all placements of comments over a file up to a bound, against a reference model."""
import itertools, re
import vbuild
from drv import Pool, clazy_args, clazy_diags, check_of
from report import Check

A, B = "raw-environment-function", "global-const-char-pointer"
NLINES = 4


def glob(g, name):
    return re.fullmatch(".*".join(re.escape(x) for x in g.split("*")), name) is not None


def covers(args, check):
    """args: None = every check, else a list of clazy- globs and foreign names."""
    return args is None or any(a.startswith("clazy-") and glob(a[6:], check) for a in args)


WRAPS = {"arg": "WRAP(", "argarg": "WRAP2("}


class Sym:
    def __init__(self, text, *dirs):
        self.text, self.dirs = text, dirs


def paren(args, sep=","):
    return "" if args is None else "(" + sep.join(args) + ")"


def alphabet():
    s = []
    cz = lambda t, d: s.append(Sym(t, d))
    cz("clazy:skip", ("skip",))
    for lst in ([A], [A, B], ["bogus", B]):
        cz("clazy:excludeall=" + ",".join(lst), ("all", lst))
        cz("clazy:exclude=" + ",".join(lst), ("line", lst))
        cz("clazy:exclude-next-line=" + ",".join(lst), ("next", lst))
    cz("clazy:exclude=" + A[:-1], ("line", [A[:-1]]))
    cz("clazy:excludeall=" + B + "s", ("all", [B + "s"]))
    for args, sep in ((None, ","), (["clazy-" + A], ","), (["clazy-" + A, "clazy-" + B], ","), (["clazy-" + B, "clazy-" + A], ", "),
                      (["clazy-raw-*"], ","), (["clazy-*pointer"], ","), (["clazy-*"], ","), (["misc-unused", "clazy-" + B], ","), (["misc-unused"], ","),
                      (["clazy-" + A[:-1]], ","), (["clazy-x" + A, "clazy-" + B + "*"], ",")):
        cz("NOLINT" + paren(args, sep), ("nolint", args))
        cz("NOLINTNEXTLINE" + paren(args, sep), ("nolintnext", args))
    return s


def ranges():
    s = []
    for args in (None, ["clazy-" + A], ["clazy-" + B], ["clazy-" + A, "clazy-" + B], ["misc-unused"]):
        s.append(Sym("NOLINTBEGIN" + paren(args), ("begin", paren(args), args)))
        s.append(Sym("NOLINTEND" + paren(args), ("end", paren(args))))
    return s


EXTRA = [
    Sym("text NOLINT(clazy-%s) clazy:exclude=%s" % (A, B), ("nolint", ["clazy-" + A]), ("line", [B])),
    Sym("see clazy:exclude=%s and why" % A, ("line", [A])),
    Sym("clazy:excludes=%s" % A),
    Sym("clazy exclude=%s" % A),
    Sym("nolint"),
    Sym("fine: NOLINT: reason", ("nolint", None)),
    Sym("clazy:exclude-next-line=%s NOLINT" % A, ("next", [A]), ("nolint", None)),
    Sym("NOLINTNEXTLINE(clazy-%s,clazy-%s) some reason (of mine)" % (A, B), ("nolintnext", ["clazy-" + A, "clazy-" + B])),
]


class File:
    """slots: {(place, index): (Sym, style)}; place 'e' = at the end of code line i, 'o' = on its own line before code line i,
    's' = block comment at the start of code line i. index NLINES with 'o' is after the last line."""

    def __init__(self, slots, final_newline=True, crlf=False, macro="", strings=False):
        self.slots, self.nl, self.crlf, self.macro, self.strings = slots, final_newline, crlf, macro, strings

    def key(self):
        return ";".join("%s%d:%s:%s" % (p, i, st, sy.text) for (p, i), (sy, st) in sorted(self.slots.items(), key=lambda x: (x[0][1], x[0][0]))) + \
            ("" if self.nl else " [no final newline]") + (" [crlf]" if self.crlf else "") + (" [macro %s]" % self.macro if self.macro else "") + (" [strings]" if self.strings else "")

    def render(self, u):
        """Returns (text, expected {(line, check)}): u is a unique prefix for names."""
        lines, code, dirs = [], {}, []

        def comment(sy, st):
            return "// " + sy.text if st == "l" else "/* %s */" % sy.text
        for i in range(NLINES + 1):
            if ("o", i) in self.slots:
                sy, st = self.slots[("o", i)]
                lines.append(comment(sy, st))
                dirs.append((len(lines), sy))
            if i == NLINES:
                break
            pre = post = ""
            if self.macro in WRAPS:
                # Every code line is the argument of a macro invocation of its own, which begins on the line before; clazy reports
                # one warning of a check per macro invocation.
                lines.append(WRAPS[self.macro])
            ln = len(lines) + 1
            if ("s", i) in self.slots:
                sy, st = self.slots[("s", i)]
                pre = comment(sy, "b") + " "
                dirs.append((ln, sy))
            if ("e", i) in self.slots:
                sy, st = self.slots[("e", i)]
                post = " " + comment(sy, st)
                dirs.append((ln, sy))
            q = "%s_%d" % (u, i)
            a, b_ = ("GETENV", "CHARP") if self.macro == "body" else ("getenv", "const char *")
            lit = '"// NOLINT /* clazy:skip */"' if self.strings else '"x"'
            lines.append('%s%s%sp = %s; bool %sr = %s("A"); %s%sq = "y"; bool %ss = %s("B");%s' % (pre, b_ + " ", q, lit, q, a, b_ + " ", q, q, a, post))
            if self.macro in WRAPS:
                lines[-1] = '%sconst char *%sp = %s; bool %sr = %s("A");%s' % (pre, q, lit, q, a, post)
                lines.append(")")
            code[ln] = i
        exp = set()
        for ln in code:
            for c in (A, B):
                if not self.suppressed(ln, c, dirs):
                    exp.add((ln, c))
        sep = "\r\n" if self.crlf else "\n"
        return sep.join(lines) + (sep if self.nl else ""), exp

    @staticmethod
    def suppressed(ln, c, dirs):
        stack = []
        for at, sy in dirs:
            for d in sy.dirs:
                k = d[0]
                if k == "skip":
                    return True
                if k == "all" and c in d[1]:
                    return True
                if k == "line" and at == ln and c in d[1]:
                    return True
                if k == "next" and at + 1 == ln and c in d[1]:
                    return True
                if k == "nolint" and at == ln and covers(d[1], c):
                    return True
                if k == "nolintnext" and at + 1 == ln and covers(d[1], c):
                    return True
                if k == "begin":
                    stack.append((at, d[1], d[2]))
                if k == "end" and stack and stack[-1][1] == d[1]:
                    b, _, args = stack.pop()
                    if b <= ln <= at and covers(args, c):
                        return True
        return False


PRO = 'extern "C" char *getenv(const char *);\n#define GETENV getenv\n#define CHARP const char *\n#define WRAP(...) __VA_ARGS__\n#define WRAP2(...) \\\n  WRAP(__VA_ARGS__) // NOLINT clazy:exclude=%s,%s\n' % (A, B)


def observe(r, path, off=0):
    got = {}
    for d in clazy_diags(r):
        if d.get("file") == path:
            k = (d["line"] - off, check_of(d))
            got[k] = got.get(k, 0) + 1
    return got


def main():
    ck = Check("C02", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    args = clazy_args(A + "," + B)
    T = ck.thorough()
    al, rg = alphabet(), ranges()
    files = []
    ends = [("e", i) for i in range(NLINES)]
    own = [("o", i) for i in range(NLINES + 1)]
    starts = [("s", i) for i in range(NLINES)]
    every = al + rg + EXTRA
    # one comment: every symbol at every slot in every style, every file form
    for sy in every:
        for sl in ends + own + starts:
            for st in "lb":
                if sl[0] == "s" and st == "l":
                    continue
                for form in ({}, {"final_newline": False}, {"crlf": True}, {"macro": "body"}, {"macro": "arg"}, {"macro": "argarg"}, {"strings": True}):
                    files.append(File({sl: (sy, st)}, **form))
    for form in ({}, {"final_newline": False}, {"strings": True}, {"macro": "body"}, {"macro": "arg"}):
        files.append(File({}, **form))
    # two comments
    slots2 = [("e", 0), ("o", 1), ("s", 1), ("e", 1), ("o", 2), ("e", 2)] if not T else ends + own + starts
    sym2 = al + rg
    for s1, s2 in itertools.combinations(slots2, 2):
        if not T and (s1[1] != 1 and s2[1] != 1):
            continue
        for x in sym2:
            for y in sym2:
                files.append(File({s1: (x, "b" if s1[0] == "s" else "l"), s2: (y, "b" if s2[0] == "s" else "l")}))
    # range markers: every sequence up to four (thorough: five) of them
    nest = [r for r in rg if "misc" not in r.text] if not T else rg
    for n in (2, 3, 4):
        for pos in itertools.combinations(own, n):
            if n == 4 and not T and pos != tuple(own[1:]) and pos != tuple(own[:4]):
                continue
            if n == 3 and not T and pos not in (tuple(own[0:3]), (own[0], own[2], own[4]), tuple(own[2:5])):
                continue
            for w in itertools.product(nest if n < 4 else nest[:6] if not T else nest[:8], repeat=n):
                files.append(File({p: (s, "l") for p, s in zip(pos, w)}))
    # a range with a line directive inside or around
    for x in rg[::2]:
        y = rg[rg.index(x) + 1]
        for z in al:
            for sl in (("e", 1), ("e", 2), ("e", 3), ("s", 1)):
                files.append(File({("o", 1): (x, "l"), ("o", 3): (y, "l"), sl: (z, "b")}))
    # last line without newline, two comments
    for x in al:
        for y in (al[0], al[1], al[2]) + tuple(al[11:15]):
            files.append(File({("o", 3): (x, "l"), ("e", 3): (y, "l")}, final_newline=False))
    ck.cov["files"] = len(files)
    # Batches: many files included in one translation unit (a comment must not affect another file), one as main file.
    PER = 60
    jobs, meta = [], []
    for k in range(0, len(files), PER):
        grp = files[k:k + PER]
        fs, exp = {}, {}
        mainname = "/v/m.cpp"
        inc = ['#include "/v/pro.h"']
        for n, f in enumerate(grp):
            t, e = f.render("u%d" % n)
            if n == len(grp) - 1:
                fs[mainname] = "\n".join(inc) + "\n" + t
                exp[mainname] = (f, e, len(inc))
            else:
                fn = "/v/h%d.h" % n
                fs[fn] = t
                exp[fn] = (f, e, 0)
                inc.append('#include "%s"' % fn)
        fs["/v/pro.h"] = PRO
        jobs.append({"args": args, "main": mainname, "files": fs})
        meta.append(exp)
    res = pool.run(jobs)
    suspects, states, outcomes = [], set(), set()
    for r, exp in zip(res, meta):
        if "crash" in r or r.get("nerr"):
            ck.violate("crash or error in a batch", {"result": str(r)[:2000]})
            continue
        for fn, (f, e, off) in exp.items():
            got = observe(r, fn, off)
            want = {k: 1 if f.macro in WRAPS else 2 for k in e}
            states.add(f.key())
            outcomes.add(frozenset(e))
            if got != want:
                suspects.append((f, want, got))
    # Replay each suspect alone before reporting it.
    suspects.sort(key=lambda x: len(x[0].slots))
    rj = []
    for f, want, got in suspects[:400]:
        t, e = f.render("u")
        rj.append({"args": args, "main": "/v/m.cpp", "files": {"/v/m.cpp": '#include "/v/pro.h"\n' + t, "/v/pro.h": PRO}})
    for (f, want, got), r in zip(suspects, pool.run(rj)):
        alone = observe(r, "/v/m.cpp", 1)
        show = lambda m: ["%d:%s x%d" % (l, c, n) for (l, c), n in sorted(m.items())]
        if alone != want:
            ck.violate(f.key(), {"file": f.render("u")[0], "want": show(want), "got": show(alone)})
        else:
            ck.violate("batch only: " + f.key(), {"file": f.render("u")[0], "want": show(want), "got in batch": show(got)})
    if len(suspects) > 400:
        ck.cov["suspects_not_replayed"] = len(suspects) - 400
    ck.cov.update({"states": len(states), "transitions": sum(len(f.slots) for f in files), "traces_validated_against_impl": len(files),
                   "distinct_outcomes": len(outcomes), "translation_units": len(jobs), "exhaustive": True})
    for f in (files[7], files[len(files) // 2], files[-1]):
        ck.sample({"placement": f.key(), "expected": sorted(f.render("u")[1])})
    ck.assumptions += ["crossing NOLINTBEGIN/END pairs follow clang-tidy's rule: an END closes the innermost open BEGIN with the same argument, otherwise it has no effect",
                       "directives are on the first line of a comment; one clazy: directive per comment"]
    ck.finish()
