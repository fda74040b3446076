"""Driver: python3 -m sa.check Pxx [--tier quick|thorough]

Exit 0: every obligation of the property was discharged on the current source
(or is listed in known_findings.json); exit 1 with VIOLATION lines otherwise;
any other exit is an error of the analysis itself (vanished anchor...)."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from .model import VERIF, REPO, AnalysisError, load

sys.setrecursionlimit(20000)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []      # (key, where, message)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.notes = []
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0
        self.analysed = {}
        self._P = None

    # ---------------------------------------------------------- the program
    @property
    def P(self):
        if self._P is None:
            self._P = load()
        return self._P

    # ------------------------------------------------------------ reporting
    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what:
            self.sample(what)

    def fail(self, key, where, msg):
        """key identifies the violated instance independently of line numbers"""
        self.obligations += 1
        if not any(v[0] == key for v in self.violations):
            self.violations.append((key, where, msg))

    def need(self, cond, key, where, msg, what=None):
        if cond:
            self.ok(what)
        else:
            self.fail(key, where, msg)
        return cond

    def floor(self, name, n, least):
        self.counts[name] = n
        if self._P is not None and self._P.errors and 2 * n >= least:
            return      # the units that do not parse are named in the evidence
        if n < least:
            raise AnalysisError("%s: only %d found, expected at least %d (analysis anchor lost)" % (name, n, least))

    def anchor(self, x, what):
        if not x:
            raise AnalysisError("anchor not found: " + what)
        return x


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e for e in d["known"] if e["property"] == prop}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    c = Check(a.prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        m = importlib.import_module("sa.rules." + a.prop.lower())
        m.run(c)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (a.prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % a.prop)
        return 4
    kn = known(a.prop)
    new = [v for v in c.violations if v[0] not in kn]
    old = [v for v in c.violations if v[0] in kn]
    evd = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    explanation = "; ".join(c.rules) or "static analysis"
    cov = {"explanation": explanation, "obligations": c.obligations, "discharged": c.discharged,
           "counts": c.counts, "samples": c.samples, "notes": c.notes,
           "known_findings": [v[0] for v in old], "repo": REPO}
    if c._P is not None:
        P = c._P
        cov["translation_units"] = len(P.units)
        cov["functions_in_program"] = len(P.funcs)
        if P.errors:
            cov["units_with_parse_errors"] = {os.path.relpath(k, REPO): v.splitlines()[:2] for k, v in P.errors.items()}
    ev = {"property": a.prop, "tier": tier, "seed": c.seed, "level": "other", "coverage": cov,
          "assumptions": c.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(evd, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged; %s" % (a.prop, c.obligations, c.discharged, ", ".join("%s=%s" % kv for kv in c.counts.items())))
    for k, w, msg in old:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (a.prop, k, w, msg))
    for i, (k, w, msg) in enumerate(new):
        rp = os.path.join(evd, "replay", "%s-%d.txt" % (a.prop, i))
        with open(rp, "w") as f:
            f.write("property %s\ninstance %s\nat %s\n%s\nrules: %s\n" % (a.prop, k, w, msg, explanation))
        print("  %s: %s: %s" % (w, k, msg))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
