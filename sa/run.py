#!/usr/bin/env python3
"""run.py <property> : decides one property on /repo's current tree.  exit 0 held, 1 violated (a VIOLATION line), 3 the
analysis is broken (an anchor vanished, a unit does not parse)."""
import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True
from sa import core, extract, values
from sa.core import VERIF, REPO, AnalysisBroken

KNOWN = VERIF + "/KNOWN_FINDINGS.txt"


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}      # rule -> [obligations, discharged]
        self.samples = {}
        self.bad = []        # (rule, key, loc, text)
        self.skipped = []    # (what, reason)
        self.notes = []
        self.counts = {}
        self.assume = []
        self.floors = {}
        self._seen = set()

    def ob(self, rule, key, ok, loc="", text=""):
        """one obligation; key identifies the instance (no line numbers)"""
        c = self.rules.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 3:
                s.append("%s %s" % (key, loc))
        else:
            k = (rule, key)
            if k not in self._seen:
                self._seen.add(k)
                self.bad.append((rule, key, loc, text))

    def skip(self, what, reason):
        self.skipped.append((what, reason))

    def floor(self, rule, n):
        """fewer instances than that: the rule no longer sees the code"""
        self.floors[rule] = n

    def count(self, name, n):
        self.counts[name] = n


def known(pid):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("finding:"):
                continue
            w = l[len("finding:"):].strip()
            head, _, text = w.partition(" | ")
            d = dict(x.split("=", 1) for x in head.split(" ", 1))
            if d.get("property") == pid:
                r[d["key"].strip()] = text.strip()
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("sa.checks." + pid.lower())
    R = Report(pid)
    values.STOP = t0 + 700
    kn = known(pid)
    try:
        P = mod.load() if hasattr(mod, "load") else load(mod.PARTS)
        mod.run(P, R, tier)
        for rule, n in R.floors.items():
            have = R.rules.get(rule, [0, 0])[0]
            if have < n and not any("%s/%s" % (b[0], b[1]) not in kn for b in R.bad):
                raise AnalysisBroken("rule %s: %d instances, at least %d expected" % (rule, have, n))
        if not R.rules:
            raise AnalysisBroken("no obligation")
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        sys.exit(3)
    new, old = [], []
    for b in R.bad:
        key = "%s/%s" % (b[0], b[1])
        (old if key in kn else new).append((key, b))
    rep = "%s/build/reports/%s.txt" % (VERIF, pid)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, "w") as f:
        f.write("property %s, tier %s, %d units analysed\n" % (pid, tier, len(P.units)))
        for key, (rule, k, loc, text) in new:
            f.write("VIOLATION rule=%s instance=%s\n  at %s\n  %s\n" % (rule, k, loc, text))
        for key, (rule, k, loc, text) in old:
            f.write("KNOWN rule=%s instance=%s\n  at %s\n  %s\n" % (rule, k, loc, text))
    nob = sum(c[0] for c in R.rules.values())
    nok = sum(c[1] for c in R.rules.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.EXPLAIN,
            "obligations": nob, "discharged": nok,
            "units_parsed": len(P.units), "functions": len(P.F), "records": len(P.R),
            "rules": {r: {"obligations": c[0], "discharged": c[1], "floor": R.floors.get(r, 0),
                          "samples": R.samples.get(r, [])} for r, c in R.rules.items()},
            "counts": R.counts,
            "excluded": ["%s: %s" % x for x in R.skipped],
            "known_findings": [k for k, _ in old],
            "open_violations": [k for k, _ in new],
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "violations": len(new),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, (rule, k, loc, text) in old:
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (pid, key, loc, kn[key]))
    print("%s: %d obligations, %d discharged, %d known, %d violated; %d units, %d functions, %.1f s" % (
        pid, nob, nok, len(old), len(new), len(P.units), len(P.F), time.time() - t0))
    for r, c in sorted(R.rules.items()):
        print("  rule %-34s %5d / %d" % (r, c[1], c[0]))
    if new:
        for key, (rule, k, loc, text) in new[:40]:
            print("  %s at %s: %s" % (key, loc, text))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.exit(1)
    sys.exit(0)


def load(parts):
    """facts of the current tree; MC_CACHE=dir (development only) keeps them between runs of an unchanged tree"""
    c = os.environ.get("MC_CACHE")
    if c:
        import pickle, hashlib, glob
        h = hashlib.sha1()
        for f in sorted(extract.tree_files()):
            h.update(f.encode())
            h.update(open(f, "rb").read())
        h.update(open(VERIF + "/tool/mcx.cxx", "rb").read())
        h.update(repr(parts).encode())
        p = "%s/%s.pkl" % (c, h.hexdigest())
        if os.path.exists(p):
            import gc
            gc.disable()
            P = pickle.load(open(p, "rb"))
            gc.enable()
            return P
        P = extract.extract(list(parts))
        for o in glob.glob(c + "/*.pkl"):
            if time.time() - os.path.getmtime(o) > 3600 * 3:
                os.unlink(o)
        pickle.dump(P, open(p, "wb"), -1)
        return P
    return extract.extract(list(parts))


if __name__ == "__main__":
    main()
