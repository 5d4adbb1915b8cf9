"""Members read by an evaluation before it wrote them, although evaluations
write them: their content comes from an earlier evaluation."""
from .interp import Client, Interp, V, norm, TooBig, covers
from .model import short
from .util import DF, base, own_classes, tag

# frames that only look at the dimensions of their arguments
DIMS = (DF + "::value", DF + "::jacobian")
SIZES = {"rows", "cols", "size", "space", "nq", "nv", "empty", "resize",
         "outerStride", "innerStride"}


class Stale(Client):
    loop_min1 = True

    def __init__(self, M, K):
        self.M = M
        self.K = K
        self.reads = {}
        self.writes = {}

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def temp(self, p):
        if p[0] != "this" or len(p) < 2 or not isinstance(p[1], str):
            return False
        c, fd = self.M.field(self.K, p[1])
        if not fd or not fd.get("mut"):
            return False
        t = fd.get("r") or ""
        # caches with validity flags of their own
        return not (t.startswith("hpp::constraints::MatrixOfExpressions") or
                    "_ptr" in t)

    def mark(self, I, st, p):
        if self.temp(p):
            n = norm(p)
            st.cl = dict(st.cl)
            st.cl["W"] = st.cl.get("W", frozenset()) | {n}
            self.writes.setdefault(n, []).append(
                (dict(st.facts), I.stack[-1][0], None))

    def write(self, I, st, p, node, how, val=None):
        if how not in ("alias", "decl") and not (
                node and base(node.get("f") or "") in SIZES):
            self.mark(I, st, p)

    def copied(self, I, st, dst, src, node):
        self.mark(I, st, dst)

    def read(self, I, st, p, node):
        if not self.temp(p) or I.stack[-1][0]["q"] in DIMS:
            return
        if node and base(node.get("f") or "") in SIZES:
            return
        n = norm(p)
        if any(covers(x, n) or covers(n, x) for x in st.cl.get("W", ())):
            return
        self.reads.setdefault((n, (node or {}).get("l")), []).append(
            (dict(st.facts), I.stack[-1][0], [
                "%s:%s" % (g["q"], (x or {}).get("l")) for g, x in I.stack]))


def fields(M, K):
    for c in [K] + M.ancestors(K):
        for fd in (M.rec(c) or {}).get("fields") or []:
            yield fd


def stable(M, K, key):
    """The condition involves neither arguments nor temporaries."""
    ok = [False]

    def rec(x):
        if isinstance(x, tuple):
            if x[:1] == ("path",) and len(x) == 2:
                p = x[1]
                if p[0] != "this" or len(p) < 2:
                    return False
                c, fd = M.field(K, p[1]) if isinstance(p[1], str) else (0, 0)
                if not fd or fd.get("mut"):
                    return False
                ok[0] = True
                return True
            return all(rec(y) for y in x if isinstance(y, tuple))
        return True
    return rec(key) and ok[0]


def contradict(M, K, a, b):
    for k, v in a.items():
        if k in b and b[k] != v and isinstance(v, bool) and stable(M, K, k):
            return True
    return False


def memo_keys(c, facts):
    """Temporaries the path found equal to an argument."""
    out = set()
    for k, v in facts.items():
        if k[0] == "cmp" and k[1] == "==" and v:
            for x, y in ((k[2], k[3]), (k[3], k[2])):
                if x[0] == "path" and y[0] == "path" and c.temp(x[1]) and \
                        y[1][0].startswith("arg:") and len(y[1]) == 1:
                    out.add(norm(x[1]))
    return out


def classes(M, R):
    """Yields (class, function, name, path, where, reason)."""
    for K in own_classes(M, DF):
        probe = Stale(M, K)
        if not any(probe.temp(("this", fd["n"])) for fd in fields(M, K)):
            continue
        runs = []
        for n in ("impl_compute", "impl_jacobian"):
            for g in M.methods(K, n):
                if g.get("body") is None:
                    continue
                c = Stale(M, K)
                I = Interp(M, c)
                I.maxsteps = 150000
                try:
                    outs = I.run(g, V(("this",), cls=K))
                except (TooBig, RecursionError) as e:
                    R.unclear("%s: %s" % (short(g["q"]), e))
                    outs = []
                runs.append((g, c, outs))
        if not any(c.reads or c.writes for g, c, o in runs):
            continue
        R.count("classes with temporaries")
        nb = 0
        for g, c, outs in runs:
            for (p, line), evs in sorted(c.reads.items(), key=str):
                R.count("reads of temporaries not written before")
                why = None
                for facts, fr, tr in evs:
                    mk = memo_keys(c, facts)
                    if any(covers(m, p) for m in mk):
                        continue
                    if mk:
                        continue        # judged as a memo by C05
                    why = plain(M, K, runs, p, facts)
                    if why:
                        break
                if why:
                    key = lookup(c, p, runs)
                    if key:
                        continue
                    nb += 1
                    yield (K, g, "%s%s::%s" % (short(K), tag(g),
                                               base(g["q"])), p,
                           (fr.get("file"), line, tr), why)
        if not nb:
            R.ok("%s: temporaries written before they are read" % short(K))


def lookup(c, p, runs):
    """p is a key compared with the argument to look a memo up."""
    for g, c, outs in runs:
        for (q, line), evs in c.reads.items():
            for facts, fr, tr in evs:
                if p in memo_keys(c, facts):
                    return True
        for k, s, v in outs:
            if p in memo_keys(c, s.facts):
                return True
    return False


def plain(M, K, runs, p, facts):
    for g, c, outs in runs:
        for w, evs in c.writes.items():
            if not (covers(w, p) or covers(p, w)):
                continue
            for f2, fn, _ in evs:
                if not contradict(M, K, facts, f2):
                    return "which %s writes" % short(fn["q"])
    return None
