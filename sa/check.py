"""Driver: python3 -m sa.check <property id>

Decides one property on the current source of the repository, prints
VIOLATION / KNOWN-FINDING lines and writes evidence/<id>.json.
Exit status: 0 holds, 1 violated, 2 the analysis could not be done.
"""
import importlib
import json
import os
import sys
import time
import traceback

from . import facts
from .model import Model

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known-findings.json")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}          # key -> (msg, file, line, trace)
        self.nobl = 0
        self.ndis = 0
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.functions = set()
        self.notes = []
        self.inconclusive = []

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def analysed(self, f):
        self.functions.add(f if isinstance(f, str) else
                           "%s (%s:%s)" % (f["q"], rel(f["file"]), f["line"]))

    def ok(self, text=None):
        """One obligation discharged."""
        self.nobl += 1
        self.ndis += 1
        if text and len(self.samples) < 40:
            self.samples.append(text)

    def bad(self, key, msg, file=None, line=None, trace=None):
        """One obligation that fails. key identifies the construct."""
        self.nobl += 1
        if key not in self.viol:
            self.viol[key] = (msg, file, line, trace)

    def check(self, cond, key, msg, file=None, line=None, trace=None,
              text=None):
        if cond:
            self.ok(text)
        else:
            self.bad(key, msg, file, line, trace)
        return cond

    def unclear(self, text):
        """Construct the rule cannot decide; neither obligation nor alarm."""
        self.inconclusive.append(text)


def rel(p):
    r = facts.REPO.rstrip("/") + "/"
    return p[len(r):] if p and p.startswith(r) else p


def main(pid, tier):
    t0 = time.time()
    R = Report(pid)
    try:
        M = Model(facts.load())
        mod = importlib.import_module("sa.checks." + pid.lower())
        mod.run(R, M)
        if R.nobl == 0:
            raise facts.Broken("no construct the rules apply to was found")
    except facts.Broken as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % pid)
        return 2
    known = {}
    if os.path.exists(KNOWN):
        for k in json.load(open(KNOWN))["findings"]:
            if k["property"] == pid:
                known[k["key"]] = k
    new = {k: v for k, v in R.viol.items() if k not in known}
    for k in R.viol:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    outdir = os.path.join(HERE, "evidence")
    os.makedirs(outdir, exist_ok=True)
    for k, (msg, file, line, trace) in sorted(new.items()):
        print("%s:%s: %s [%s]" % (rel(file), line, msg, k))
        for t in (trace or [])[:30]:
            print("    " + t)
    if new:
        path = os.path.join(outdir, "%s.violation.txt" % pid)
        with open(path, "w") as f:
            for k, (msg, file, line, trace) in sorted(new.items()):
                f.write("%s:%s: %s [%s]\n" % (rel(file), line, msg, k))
                for t in trace or []:
                    f.write("    %s\n" % t)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": " ".join(getattr(mod, "EXPLAIN", "").split()),
            "obligations": R.nobl,
            "discharged": R.ndis,
            "rules": R.rules,
            "counts": R.counts,
            "functions_analysed": len(R.functions),
            "functions": sorted(R.functions)[:400],
            "samples": R.samples,
            "inconclusive": R.inconclusive[:100],
            "checker_cmd": "python3 -m sa.check %s" % pid,
            "trusted_base": [
                "clang 18 front end (tool/extract.cc prints its typed AST)",
                "sa/interp.py abstract semantics",
                "signatures of functions outside the repository"],
        },
        "assumptions": R.assumptions,
        "violations": len(new),
        "known_findings": sorted(k for k in R.viol if k in known),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(outdir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s obligations=%d discharged=%d functions=%d "
          "inconclusive=%d wall=%.1fs" %
          (pid, R.nobl, R.ndis, len(R.functions), len(R.inconclusive),
           time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], os.environ.get("VERIF_TIER", "quick")))
