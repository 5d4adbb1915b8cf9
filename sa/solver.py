"""Typestate of the configuration a solver works on (C08, C09, C10).

The state records, for each configuration object (argument, saved copies,
buffers), whether
  raw    an integration step was added to its content, which did not go
         through the saturation since,
  moved  an integration step was added to its content (integrate only),
  exp    the explicit constraints were solved at it since,
and for which objects the residual error was last evaluated (E), summarised
into the squared norm (N) and found below the threshold (good)."""
from .interp import Client, NOC, V, covers, deps, norm, overlap
from .model import walk
from .util import NS, base

HI = NS + "solver::HierarchicalIterative"
BS = NS + "solver::BySubstitution"
ECS = NS + "ExplicitConstraintSet"
SAT = NS + "solver::saturation::"
EXC = NS + "FunctionNotDefinedForThisValue"
SETS = ("moved", "raw", "exp", "E", "N", "good")


def written_scalars(M, cls, name, nparams):
    """Scalar members a function of this name assigns."""
    out = set()
    for f in M.methods(cls, name):
        if len(f["ps"]) != nparams or f.get("body") is None:
            continue
        for n in walk(f["body"]):
            if n["k"] == "bin" and n["op"].endswith("=") and \
                    n["op"] not in ("==", "!=", "<=", ">=") and \
                    n["x"]["k"] == "mem":
                out.add(n["x"]["n"])
    return out


class SolverClient(Client):
    def __init__(self, M, cls, moves=False):
        self.M = M
        self.moves = moves
        self.cls = cls
        self.norms = written_scalars(M, HI, "computeError", 0)
        self.thrs = written_scalars(M, HI, "errorThreshold", 1)
        self.evals = []      # (state snapshot, path, node, stack)
        self.events = {"eval": 0, "explicit": 0, "saturate": 0, "move": 0,
                       "error": 0}

    # ---------------------------------------------------------- helpers
    def get(self, st, name):
        return st.cl.get(name, frozenset())

    def put(self, st, name, val):
        st.cl = dict(st.cl)
        st.cl[name] = frozenset(val)

    def drop(self, st, p, keep=()):
        for s in SETS:
            if s in keep:
                continue
            v = self.get(st, s)
            w = frozenset(x for x in v if not overlap(x, p))
            if w != v:
                self.put(st, s, w)

    def is_norm(self, k):
        return k[0] == "path" and len(k[1]) >= 2 and k[1][0] == "this" and \
            k[1][-1] in self.norms

    def is_thr(self, k):
        """The squared threshold, possibly scaled down."""
        if not isinstance(k, tuple) or not k:
            return False
        if k[0] == "path":
            return len(k[1]) >= 2 and k[1][-1] in self.thrs
        if k[0] == "bin" and k[1] == "*":
            a, b = k[2], k[3]
            for x, y in ((a, b), (b, a)):
                if x[0] == "lit" and isinstance(x[1], (int, float)) and \
                        x[1] <= 1 and self.is_thr(y):
                    return True
        if k[0] == "bin" and k[1] == "/" and k[3][0] == "lit" and \
                isinstance(k[3][1], (int, float)) and k[3][1] >= 1:
            return self.is_thr(k[2])
        return False

    # ------------------------------------------------------------ hooks
    def track_scal(self, path, v):
        return path[0][0] in "LTa" and not isinstance(v, float)

    def track_fact(self, key):
        ps = deps(key)
        return any(p[-1] in self.norms for p in ps) and \
            any(p[-1] in self.thrs for p in ps) or \
            key[0] == "truth" and key[1][0] == "path"

    def decided(self, I, st, key, value):
        if key[0] != "cmp" or key[1] != "<":
            return
        a, b = key[2], key[3]
        if value:
            small, big = a, b
        else:
            small, big = b, a
        small, big = strip(small), strip(big)
        below = self.get(st, "below")
        if self.is_norm(small) and (
                self.is_thr(big) or big[0] == "path" and
                norm(big[1]) in below):
            self.put(st, "good", self.get(st, "good") | self.get(st, "N"))
            self.put(st, "nb", {1})
            new = {norm(p) for p, k in st.skey.items()
                   if self.is_norm(k)}
            self.put(st, "below", below | new)

    def write(self, I, st, path, node, how, val=None):
        if how in ("alias", "decl", "rebind") and not (
                how == "decl" and val is not None):
            return
        p = norm(path)
        e = self.get(st, "empty")
        if how == "decl" and val.path is None and val.const is NOC and \
                (val.key is None or val.key[0] == "ctor" and
                 not val.key[2]) and not (node.get("x") or {}).get("a"):
            self.put(st, "empty", e | {p})
        elif p in e:
            self.put(st, "empty", e - {p})
        if how != "decl":
            if how == "+=" and val is not None and \
                    (node or {}).get("k") == "call":
                # group element increments move the configuration
                self.drop(st, p)
                self.put(st, "raw", self.get(st, "raw") | {p})
                if self.moves:
                    self.put(st, "moved", self.get(st, "moved") | {p})
                self.events["move"] += 1
                return
            self.drop(st, p)
        b = self.get(st, "below")
        if p in b:
            self.put(st, "below", b - {p})
        if val is not None and self.get(st, "nb") and (
                self.is_norm(val.k())):
            self.put(st, "below", self.get(st, "below") | {p})

    def copied(self, I, st, dst, src, node):
        d, s = norm(dst), norm(src)
        if d == s:
            return
        e = self.get(st, "empty")
        if s in e:
            self.put(st, "empty", e | {d})
        elif d in e:
            self.put(st, "empty", e - {d})
        self.drop(st, d)
        for n in SETS:
            v = self.get(st, n)
            if s in v:
                self.put(st, n, v | {d})

    def rename(self, st, old, new):
        for n in SETS + ("below",):
            v = self.get(st, n)
            if any(x[0] == old for x in v):
                self.put(st, n, {(new,) + x[1:] if x[0] == old else x
                                 for x in v})

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] == "ctor":
            return None
        f = node.get("f") or ""
        n = base(f)
        c = f.rsplit("::", 1)[0].split("<")[0]
        if c in (HI, BS):
            if n == "computeValue" and avs and avs[0].path is not None:
                p = norm(avs[0].path)
                self.put(st, "E", {p})
                self.events["eval"] += 1
                self.evaluated(I, st, p, node)
                return [(st, V())]
            if n == "computeError":
                self.put(st, "N", self.get(st, "E"))
                self.put(st, "nb", ())
                for m in self.norms:
                    st.forget(("this", m))
                self.events["error"] += 1
                return [(st, V())]
        if n == "size" and ov is not None and ov.path is not None and \
                norm(ov.path) in self.get(st, "empty"):
            return [(st, V(const=0))]
        if c == ECS and n == "solve" and avs and avs[0].path is not None:
            p = norm(avs[0].path)
            self.events["explicit"] += 1
            st.forget(avs[0].path)
            self.drop(st, p, ("moved", "raw"))
            t = st.copy()
            I.thrown.append((t, EXC))
            self.put(st, "exp", self.get(st, "exp") | {p})
            return [(st, V(const=True))]
        if n == "saturate" and c.startswith(SAT) and len(avs) == 3 and \
                avs[0].path is not None and avs[1].path is not None:
            s, d = norm(avs[0].path), norm(avs[1].path)
            self.events["saturate"] += 1
            mv = s in self.get(st, "moved")
            st.forget(avs[1].path)
            self.drop(st, d)
            if mv:
                self.put(st, "moved", self.get(st, "moved") | {d})
            return [(st, V())]
        return None

    def inline(self, I, st, node, f, ov, avs):
        c = (f.get("cls") or "")
        n = base(f["q"])
        if not f["q"].startswith(NS):
            return False
        if c in (HI, BS) and n in ("computeSaturation",
                                   "computeDescentDirection",
                                   "updateJacobian", "print",
                                   "expandDqSmall"):
            # these change the step and the reduced Jacobian only
            for k in [k for k in st.facts if any(
                    p[0] == "this" and p[-1] not in self.norms | self.thrs
                    for p in deps(k))]:
                del st.facts[k]
            for d in (st.scal, st.skey):
                for p in [p for p in d if p[0] == "this" and
                          p[-1] not in self.norms | self.thrs]:
                    del d[p]
            return False
        return True

    def post_call(self, I, st, node, ov, avs, res):
        # buffers of a line search are not used after it
        if node.get("op") == "()" and ov is not None and ov.path:
            p = norm(ov.path)
            for s in SETS + ("below", "empty"):
                v = self.get(st, s)
                w = frozenset(x for x in v if not covers(p, x))
                if w != v:
                    self.put(st, s, w)

    def evaluated(self, I, st, p, node):
        pass


def strip(k):
    while isinstance(k, tuple) and k and k[0] == "call" and \
            base(k[1]) == "sqrt" and k[3]:
        k = k[3][0]
    return k


def entry_functions(M):
    """Instances of the functions that drive the iterations."""
    out = []
    for K, names in ((HI, ("solve",)), (BS, ("impl_solve", "solve"))):
        for n in names:
            for f in M.methods(K, n):
                if f.get("body") is None or not f["ps"]:
                    continue
                out.append((K, f))
    return out


class ErrorClient(Client):
    """Records how computeError accumulates."""
    loop_min1 = False

    def __init__(self, norms):
        self.norms = norms
        self.writes = []
        self.bounds = []

    def track_fact(self, key):
        return True

    def track_scal(self, path, v):
        return True

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] == "ctor":
            return None
        n = base(node.get("f") or "")
        if n == "size" and ov is not None and ov.path is not None and \
                len(ov.path) == 2:
            return [(st, V(key=("size", ("path", norm(ov.path)))))]
        return None

    def write(self, I, st, path, node, how, val=None):
        if path[-1] in self.norms and path[0] == "this":
            self.writes.append((st.copy(), path, node, how, val,
                                I.stack[-1][0]))


def mentions(k, pred):
    if isinstance(k, tuple) and k:
        if pred(k):
            return True
        return any(mentions(x, pred) for x in k if isinstance(x, tuple))
    return False


def error_rules(R, M):
    """Aggregation of the error over constraints and levels."""
    from .interp import Interp, TooBig, show_key
    norms = written_scalars(M, HI, "computeError", 0)
    opt = written_scalars(M, HI, "lastIsOptional", 1)
    fs = [f for f in M.methods(HI, "computeError") if f.get("body")]
    for f in fs:
        c = ErrorClient(norms)
        I = Interp(M, c)
        try:
            outs = I.run(f, V(("this",), cls=HI))
        except TooBig as e:
            R.unclear("computeError: %s" % e)
            continue
        R.analysed(f)
        loc = (f["file"], f["line"])
        acc = 0
        for st, p, node, how, val, g in c.writes:
            k = val.k() if val is not None else ("?",)
            isn = (lambda x: isinstance(x, tuple) and len(x) == 2 and
                   x[0] == "path" and x[1][-1] in norms)
            sq = (lambda x: x and x[0] == "call" and
                  base(x[1]) in ("squaredNorm", "dot", "norm"))
            if how == "+=":
                acc += 1
                R.ok()
                continue
            if k == ("lit", 0) or k == ("lit", 0.0):
                # only before anything was accumulated
                R.check(not st.cl.get("acc"), "computeError:reset",
                        "computeError forgets the error accumulated so far",
                        g["file"], node.get("l"))
                continue
            if mentions(k, lambda x: x[0] == "call" and
                        base(x[1]) == "max") and mentions(k, isn):
                acc += 1
                R.ok("maximum with the previous errors")
                continue
            if mentions(k, lambda x: x[0] == "call" and base(x[1]) == "min"):
                R.bad("computeError:min", "computeError keeps the smaller "
                      "of the errors", g["file"], node.get("l"))
                continue
            if mentions(k, sq) or k[0] == "path":
                # conditional maximum: a fact says the new one is larger
                big = any(x[0] == "cmp" and x[1] == "<" and (
                    isn(x[2]) and x[3] == k and v or
                    isn(x[3]) and x[2] == k and not v)
                    for x, v in st.facts.items())
                first = any(x[0] == "cmp" for x in st.facts)
                acc += 1
                # facts about the norm are dropped by the write itself
                R.ok() if big or first else R.unclear(
                    "computeError: assignment of %s" % show_key(k)[:80])
                continue
            R.unclear("computeError assigns %s" % show_key(k)[:80])
        R.check(acc > 0, "computeError:nothing",
                "computeError accumulates no error", *loc)
        # levels visited: upper bounds of the loops over the levels
        for k, s, v in outs:
            o = None
            for kk, val in s.facts.items():
                if kk[0] == "truth" and kk[1][0] == "path" and \
                        kk[1][1][-1] in opt:
                    o = val
            for kk, val in s.facts.items():
                if kk[0] != "cmp" or kk[1] != "<":
                    continue
                if not mentions(kk, lambda x: x[0] == "size"):
                    continue
                b = kk[3]
                if b[0] == "size":
                    R.ok("every level visited")
                elif b[0] == "bin" and b[1] == "-":
                    R.check(o is True, "computeError:levels",
                            "computeError leaves out the last level although "
                            "it is not optional (bound %s)" % show_key(b),
                            *loc)
