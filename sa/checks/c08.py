"""C08: SUCCESS only for a configuration that was checked."""
from ..interp import Interp, NOC, TooBig, V, deps, norm, show_key, show_path
from ..model import short, walk
from ..solver import (BS, HI, SolverClient, entry_functions, error_rules)
from ..util import base

EXPLAIN = """Typestate analysis of the configuration on all paths of every
instance of the solve functions (helpers, line searches and integration
inlined, loops iterated to a fixpoint, the status, the flags and the facts
about the squared norm tracked path by path). SUCCESS may be returned only on
paths where the configuration handed back is one for which the norm computed
by computeError, after an evaluation at that very content, was found below
the squared threshold (or below a norm that was), or a saved copy of it. The
norm itself must aggregate all the levels that are not optional."""


def run(R, M):
    R.rule("on every path that returns SUCCESS the configuration handed back "
           "was found below the error threshold at that content")
    R.rule("no path returns a status that was never assigned")
    R.rule("computeError aggregates the error of every constraint of every "
           "level that is not optional")
    R.assume("computeValue(q) evaluates the constraints at q, computeError() "
             "summarises the last evaluation (checked by C17)")
    for K, f in entry_functions(M):
        if sum(1 for _ in walk(f["body"])) < 25:
            continue        # forwards to another instance
        c = SolverClient(M, K)
        I = Interp(M, c)
        I.maxsteps = 4000000
        name = "%s<%s>" % (short(f["q"]), (f.get("ta") or "").rsplit(
            "::", 1)[-1])
        try:
            outs = I.run(f, V(("this",), cls=K))
        except TooBig as e:
            R.unclear("%s: %s" % (name, e))
            continue
        R.analysed(f)
        R.count("solver instances")
        R.count("evaluations on paths", c.events["eval"])
        arg = ("arg:" + f["ps"][0]["n"],)
        for k, s, v in outs:
            if k != "ret":
                continue
            R.count("returning paths")
            st = v.const if isinstance(v, V) else NOC
            if st is NOC or not isinstance(st, str):
                kk = v.k() if isinstance(v, V) else ("?",)
                if kk[0] == "path" and kk[1][0].startswith("L1."):
                    R.bad("%s:unset" % short(f["q"]),
                          "%s may return a status never assigned" % name,
                          f["file"], f["line"])
                else:
                    R.unclear("%s: returned status not resolved" % name)
                continue
            if base(st) != "SUCCESS":
                R.ok()
                continue
            good = arg in c.get(s, "good")
            R.check(good, "%s:success" % short(f["q"]),
                    "%s returns SUCCESS on a path where the configuration it "
                    "hands back was not found below the error threshold "
                    "(checked: %s; last evaluated at: %s)" % (
                        name, ", ".join(sorted(show_path(x) for x in
                                               c.get(s, "good"))) or "none",
                        ", ".join(sorted(show_path(x) for x in
                                         c.get(s, "E"))) or
                        "a content since overwritten"),
                    f["file"], f["line"],
                    trace=["%s = %s" % (show_key(a), b)
                           for a, b in sorted(s.facts.items(), key=str)
                           if c.track_fact(a)] +
                    ["%s = %s" % (show_path(p), b) for p, b in
                     sorted(s.scal.items(), key=str) if p[0][0] == "L"],
                    text="%s: SUCCESS with a checked configuration" % name)
    error_rules(R, M)
