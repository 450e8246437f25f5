"""C21: unexpected-flag-enumerator-value. Every enumeration over small tuples of values and initialiser forms, against a reference
model of the documented rule."""
import itertools
import vbuild, batch
from drv import Pool
from report import Check

CHECK = "unexpected-flag-enumerator-value"


def pow2(v, bits):
    v &= (1 << bits) - 1
    return v != 0 and v & (v - 1) == 0


def mask3(v, bits):
    """a run of at least three one bits, possibly shifted"""
    v &= (1 << bits) - 1
    if v == 0:
        return False
    while v & 1 == 0:
        v >>= 1
    return v & (v + 1) == 0 and v.bit_length() >= 3


class En:
    """items: [(name, initialiser text or None, value, explained)]"""

    def __init__(self, items, bits=32, head="enum %s", tail=";", named=True):
        self.items, self.bits, self.head, self.tail, self.named = items, bits, head, tail, named

    def render(self, n):
        name = "E%d" % n
        s = (self.head % name if "%s" in self.head else self.head) + " {"
        cols = []
        for i, (e, init, v, x) in enumerate(self.items):
            s += " " + e.replace("@", str(n))
            if init is not None:
                s += " = "
                cols.append(len(s) + 1)
                s += init.replace("@", str(n))
            else:
                cols.append(None)
            s += ","
        s = s[:-1] + " }" + (self.tail % name if "%s" in self.tail else self.tail) + "\n"
        return s, cols

    def want(self, cols):
        it = self.items
        if not self.named or len(it) < 4 or any(i[1] is None for i in it):
            return []
        first = [i[2] for i in it[:4]]
        if all(b - a == 1 for a, b in zip(first, first[1:])):
            return []
        if 2 * sum(pow2(i[2], self.bits) for i in it) < len(it):
            return []
        out = []
        for (e, init, v, x), c in zip(it, cols):
            if v > 0 and not pow2(v, self.bits) and not mask3(v, self.bits) and "mask" not in e.lower() and not x:
                out.append((c, "Unexpected non power-of-2 enumerator value: %d" % v))
        return out


def main():
    ck = Check("C21", "model_checking")
    b = vbuild.build()
    pool = Pool(b)
    T = ck.thorough()
    ens = []
    L = lambda v: str(v)
    simple = lambda vs, **k: ens.append(En([("V%d_@" % i, L(v), v, False) for i, v in enumerate(vs)], **k))
    # every tuple of literal values
    vals = [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16]
    for n in (1, 2, 3):
        for t in itertools.product(vals[::2] if n == 3 else vals, repeat=n):
            simple(t)
    for t in itertools.product(vals if T else [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8], repeat=4):
        simple(t)
    for t in itertools.product([-1, 0, 1, 2, 3, 4, 6, 7, 9] if T else [0, 1, 2, 3, 4, 7, 9], repeat=5):
        simple(t)
    for t in itertools.product([0, 1, 2, 5, 8], repeat=6):
        simple(t)
    for a in range(-4, 6):
        for n in range(4, 10):
            for extra in ([], [64], [65], [100, 101]):
                simple(list(range(a, a + n)) + extra)
                simple(extra + list(range(a, a + n)))
    # every value in a pattern of powers of two
    for v in range(-3, 300 if not T else 5000):
        for pos in (0, 2, 4):
            t = [1, 2, 4, 8]
            t.insert(pos, v)
            simple(t)
    ck.cov["value_tuples"] = len(ens)
    # initialiser forms of one enumerator of each value
    forms = [("%d", False), ("0x%x", False), ("0%o", False), ("(%d)", False), ("+%d", False), ("int(%d)", False), ("static_cast<int>(%d)", False), ("0 + %d", True), ("%d | 0", True), ("(%d << 0)", True), ("V1_@ | %d", None),
             ("K%d", True), ("(K%d)", True), ("static_cast<int>(K%d)", True), ("int(K%d)", True), ("O::K%d", True), ("C%d", True), ("f(%d)", False), ("sizeof(char[%d])", False), ("true ? %d : 0", False), ("%dLL", False), (None, None)]
    kvals = [3, 5, 6, 7, 9, 10, 12, 14, 24, 28, 56, 100, 112, 255, 256, 1000]
    support = "".join("constexpr int C%d = %d;\n" % (k, k) for k in kvals) + "constexpr int f(int x) { return x; }\nenum Ks { %s };\nnamespace O { enum class No { NoK }; enum Ks { %s }; }\n" % (
        ", ".join("K%d = %d" % (k, k) for k in kvals), ", ".join("K%d = %d" % (k, k) for k in kvals))
    heads = [("enum %s", 32), ("enum class %s", 32), ("enum %s : unsigned char", 8), ("enum class %s : short", 16), ("enum %s : unsigned", 32), ("enum %s : unsigned long long", 64), ("enum struct %s : long", 64), ("enum [[maybe_unused]] %s", 32)]
    for (h, bits), (f, x), k, pos, name in itertools.product(heads, forms, kvals, (0, 3, 4), ("X_@", "TheMask_@", "UNMASKED_@", "MaSk@", "Mas_k@")):
        if (bits == 8 and k > 255) or (not T and name != "X_@" and (f not in ("%d", "K%d", None) or pos == 0)):
            continue
        if f == "V1_@ | %d":
            if pos < 2:
                continue
            it = (name, f % k, k | 2, True)
        elif f is None:
            it = (name, None, 0, False)
        else:
            it = (name, f % k, k, x)
        items = [("V%d_@" % i, L(v), v, False) for i, v in enumerate((1, 2, 4, 8))]
        items.insert(pos, it)
        ens.append(En(items, bits, h))
    # two odd ones in every combination of forms; the half rule
    fs = [("%d", False), ("%d | 0", True), ("K%d", True), ("(K%d)", True)]
    for (f1, x1), (f2, x2), a, c in itertools.product(fs, fs, kvals[:8], kvals[:8]):
        for base in ([1, 2], [1, 2, 4], [0, 1, 2], [0, 16]):
            items = [("V%d_@" % i, L(v), v, False) for i, v in enumerate(base)] + [("X_@", f1 % a, a, x1), ("Y_@", f2 % c, c, x2)]
            ens.append(En(items))
    # wide values
    for v in (1 << 31, (1 << 31) + 1, 1 << 40, (1 << 40) + 2, (1 << 63), (1 << 63) + 1, (1 << 64) - 1, (1 << 62) + (1 << 61), 7 << 60):
        for pos in (0, 4):
            t = [("V%d_@" % i, L(w), w, False) for i, w in enumerate((1, 2, 1 << 33, 8))]
            t.insert(pos, ("X_@", "%dULL" % v, v, False))
            ens.append(En(t, 64, "enum %s : unsigned long long"))
            ens.append(En(t, 64))
    ens.append(En([("V%d_@" % i, L(v), v, False) for i, v in enumerate((1, 2, 4))] + [("X_@", "1 << 31", -(1 << 31), True), ("Y_@", "-2147483647 - 1", -(1 << 31), True), ("Z_@", "5", 5, False)]))
    # kinds of declaration
    odd = lambda: [("V%d_@" % i, L(v), v, False) for i, v in enumerate((1, 2, 4, 9))]
    for head, tail, named in (("enum", ";", False), ("typedef enum", " T%s;", True), ("typedef enum %s", " U%s;", True), ("enum", " var%s;", False), ("struct S%s { enum", "; };", False), ("enum %s", " vAr%s;", True), ("namespace { enum %s", "; }", True)):
        if head.startswith("struct"):
            continue
        ens.append(En(odd(), 32, head, tail, named))
    srcs, wants = [], []
    for i, e in enumerate(ens):
        head = e
        s, cols = e.render(i)
        srcs.append(s)
        wants.append(sorted(e.want(cols)))
    # in classes, functions and templates
    for i, t in enumerate(("struct SS%d { enum E { %s }; };", "void ff%d() { enum E { %s }; }", "namespace N%d { inline namespace M { enum class E { %s }; } }", "class CC%d { protected: enum class E : int { %s }; E e; };")):
        for vs, odd_ in (((1, 2, 4, 9), 9), ((1, 2, 4, 8), None), ((1, 2, 3, 4), None)):
            s = t % (i * 10 + vs[3], ", ".join("A%d = %d" % (j, v) for j, v in enumerate(vs)))
            srcs.append(s + "\n")
            wants.append([(s.index("= %d" % odd_) + 3, "Unexpected non power-of-2 enumerator value: %d" % odd_)] if odd_ else [])
    got = batch.run(pool, ["-std=c++17", "-w"], support, srcs, CHECK, per=1500)
    nw = 0
    for s, w, g in zip(srcs, wants, got):
        if isinstance(g, dict):
            ck.violate("result " + s[:200], g)
            continue
        o = sorted(x[1:3] for x in g)
        nw += bool(o)
        if o != w:
            ck.violate(s.strip()[:250], {"want": w, "got": o})
    ck.cov.update({"states": len(srcs), "transitions": sum(s.count(",") + 1 for s in srcs), "traces_validated_against_impl": len(srcs), "warned": nw, "exhaustive": True})
    ck.sample(srcs[9999])
    ck.sample(srcs[-30])
    ck.finish()
