"""Outcome of a check: violations, known findings, evidence."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = tier()
        self.violations = {}
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for ln in open(kf):
                ln = ln.rstrip("\n")
                if ln.startswith("KNOWN-FINDING: property=%s " % pid):
                    body = ln.split(" ", 2)[2]
                    key, _, txt = body.partition(" :: ")
                    self.known[key.strip()] = txt
        self.hit_known = set()

    def thorough(self):
        return self.tier == "thorough"

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, key, detail):
        """key: stable identifier of the failing input; detail: JSON-able, replayable description."""
        if key in self.known:
            self.hit_known.add(key)
            return
        if key not in self.violations:
            self.violations[key] = detail

    def finish(self):
        for k in sorted(self.known):
            # Listed findings are announced whether or not this tier's bounds reach them.
            print("KNOWN-FINDING: property=%s %s :: %s" % (self.pid, k, self.known[k]))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        ev["coverage"]["samples"] = self.samples
        ev["coverage"]["known_findings_reproduced"] = sorted(self.hit_known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            od = os.path.join(VERIF, "out")
            os.makedirs(od, exist_ok=True)
            for n, (k, d) in enumerate(sorted(self.violations.items())):
                if n >= 12:
                    print("... %d more" % (len(self.violations) - n))
                    break
                path = os.path.join(od, "%s-%d.json" % (self.pid, n))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": k, "detail": d}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("   ", k, "::", str(d)[:300])
            sys.exit(1)
        print("%s %s: held on everything explored: %s" % (self.pid, self.tier, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, bool))})))
        sys.exit(0)
