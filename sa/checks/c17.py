"""C17: satisfaction tests check every constraint against the threshold in
force."""
from ..cases import Numbers
from ..interp import NOC, Interp, State, TooBig, V, deps, show_path
from ..model import short
from ..solver import BS, ECS, HI

EXPLAIN = """Case analysis of the satisfaction tests. The case fixes two
priority levels of two implicit constraints each, two explicit constraints,
the dimensions of their tangent spaces, which single constraint has an error,
its norm, the threshold, and whether the last level is optional. The functions
are interpreted abstractly: element selections and row ranges are followed,
error rows are those of the case only if they were computed at the
configuration received, all other conditions are taken both ways. The truth
value returned must be false as soon as the norm of one error that counts is
not below the threshold, and true when it is below. Setters of thresholds must
reach each member the tests read."""

NV = ((2, 3), (3, 2))       # rows of the implicit constraints, per level
NX = (3, 2)                 # rows of the explicit constraints
ROWS = [sum(x) for x in NV]
# squared norm of the error, threshold
CASES = ((9., 2.), (9., 4.), (.36, .5), (.16, .5))


def run(R, M):
    R.rule("no satisfaction test holds with an error not below the threshold")
    R.rule("satisfaction tests hold with all errors below the threshold")
    R.rule("errors are computed at the configuration tested")
    R.rule("setting the error threshold reaches each part that tests it")
    R.assume("two levels, two constraints each, stand for any number")
    for K, name in ((HI, "isSatisfied"), (BS, "isSatisfied"),
                    (ECS, "isSatisfied")):
        for f in M.methods(K, name):
            if f.get("body") is not None:
                satisfied(R, M, K, f)
    for K in (HI, BS, ECS):
        for f in M.methods(K, "isConstraintSatisfied"):
            if f.get("body") is not None:
                single(R, M, K, f)
    setters(R, M)


def mentions(k, x):
    if isinstance(k, tuple):
        return any(mentions(y, x) for y in k)
    return k == x


class Errors(Numbers):
    """Errors of the constraints of a solver, row by row."""
    loop_min1 = False
    assume_asserts = False

    def __init__(self, K, case=None, member=None, optional=False, root=()):
        self.K = K
        self.where, self.sq = case or (None, 0.)
        self.member = member
        self.optional = optional
        self.arg = None
        self.thr = None             # (parameter name, value)
        self.fun = None
        self.wrote = set()

    def start(self):
        st = State()
        if self.K != ECS:
            # left by an earlier evaluation
            st.cl = {("n", ("this", "squaredNorm_")): 0}
        return st

    # where the parts of the solver are
    def impl(self, p):
        return p[:2] if self.K != ECS and p[0] == "this" else None

    def expl(self, p):
        """Path behind the explicit constraint set."""
        if self.K == ECS:
            return p[1:] if p[0] == "this" else None
        if p[:2] == ("this", "explicit_"):
            return p[2:]
        return None

    def rows(self, kind, i, j):
        n = (NX[j] if kind == "x" else NV[i][j])
        if self.where == (kind, i, j):
            return (self.sq / n,) * n
        return (0.,) * n

    # elements with known positions
    def index(self, I, st, key):
        r = self.rep(st, key)
        if isinstance(r, (int, float)) and not isinstance(r, bool):
            return ("lit", int(r))
        return key

    def extent(self, I, st, path):
        if path[-1] == "inequalityIndices":
            return 0
        return self.length(st, path)

    def real(self, st, p):
        """Local copies stand for what was copied."""
        for n in range(len(p), 0, -1):
            src = st.cl.get(("c", p[:n]))
            if src is not None:
                return self.real(st, src + p[n:])
        return p

    def copied(self, I, st, dst, src, node):
        v = self.vec(st, src)
        st.cl = {k: x for k, x in st.cl.items()
                 if not (k[0] in ("c", "v") and k[1][:len(dst)] == dst)}
        if v is not None:
            self.put(st, dst, v)
        elif self.length(st, src) is not None:
            st.cl[("c", dst)] = src

    def level(self, p):
        """i, rest of a path in level i."""
        if self.K == ECS or len(p) < 3 or p[0] != "this":
            return None
        if p[1] in ("stacks_", "datas_") and isinstance(p[2], tuple) and \
                p[2][0] == "[]" and len(p[2]) > 1:
            i = p[2][1]
            if i == ("lit", 0) or i == ("front",) or i == "front":
                return 0, p[1], p[3:]
            if i == ("lit", 1) or i == ("back",) or i == "back":
                return 1, p[1], p[3:]
        return None

    def pos(self, x):
        if isinstance(x, tuple) and x[0] == "[]" and len(x) > 1:
            if x[1] in (("lit", 0), ("lit", 1)):
                return x[1][1]
            if x[1] in ("front", "back"):
                return int(x[1] == "back")
        return None

    def length(self, st, p):
        """Number of elements of a container of the case."""
        p = self.real(st, p)
        if self.K != ECS and p in (("this", "stacks_"), ("this", "datas_")):
            return 2
        l = self.level(p)
        if l and l[1] == "stacks_" and l[2] in (("constraints_",),):
            return 2
        x = self.expl(p)
        if x in (("data_",), ("computationOrder_",)):
            return 2
        return None

    def constraint(self, st, p):
        """kind, level, position of a constraint, rest of the path."""
        p = self.real(st, p)
        l = self.level(p)
        if l and l[1] == "stacks_" and len(l[2]) > 1 and \
                l[2][0] == "constraints_":
            j = self.pos(l[2][1])
            if j is not None:
                return ("i", l[0], j), l[2][2:]
        x = self.expl(p)
        if x and x[0] == "data_" and len(x) > 1:
            j = self.pos(x[1])
            if j is not None:
                return ("x", 0, j), x[2:]
        return None

    # vectors
    def put(self, st, p, v):
        cl = dict(st.cl)
        cl[("v", p)] = tuple(v)
        st.cl = cl

    def view(self, st, x, v):
        """Rows start, number of a view of a vector with v rows."""
        if not (isinstance(x, tuple) and x[0] == "#"):
            return None
        a = [self.rep(st, y) for y in x[2] if y[0] != "ta"]
        ta = [y[1] for y in x[2] if y[0] == "ta"]
        if any(not isinstance(y, (int, float)) for y in a):
            return None
        a = [int(y) for y in a]
        n = x[1]
        if n in ("head", "topRows") and len(a) == 1:
            return 0, a[0]
        if n in ("tail", "bottomRows") and len(a) == 1:
            return v - a[0], a[0]
        if n in ("segment", "middleRows") and len(a) == 2:
            return a[0], a[1]
        return None

    def split(self, st, p):
        """Vector a path is in, first row, number of rows (None: all)."""
        n = len(p)
        while n and isinstance(p[n - 1], tuple) and p[n - 1][0] == "#" and \
                p[n - 1][1] in ("head", "tail", "segment", "topRows",
                                "bottomRows", "middleRows"):
            n -= 1
        base = p[:n]
        v = self.whole(st, base)
        size = len(v) if v is not None else self.dim(st, base)
        s, m = 0, size
        for x in p[n:]:
            if m is None and x[1] in ("tail", "bottomRows"):
                return None
            r = self.view(st, x, m or 0)
            if r is None:
                return None
            s, m = s + r[0], r[1]
        return base, s, m, size

    def dim(self, st, base):
        l = self.level(base)
        if l and l[1] == "datas_" and l[2] == ("error",):
            return ROWS[l[0]]
        if base == ("this", "diffSmall_") or \
                self.expl(base) == ("diffSmall_",):
            return sum(NX)
        if len(base) == 1 and base[0] == "arg:error" and self.fun is None:
            return sum(NX) + (sum(ROWS) if self.K == BS else 0)
        return None

    def whole(self, st, p):
        for p in (p, self.real(st, p)):
            if ("v", p) in st.cl:
                return st.cl[("v", p)]
        l = self.level(p)
        if l and l[1] == "datas_" and l[2] == ("error",):
            return (0.,) * ROWS[l[0]]   # left by an earlier evaluation
        return None

    def vec(self, st, p):
        r = self.split(st, p)
        if r is None:
            return None
        base, s, m, size = r
        v = self.whole(st, base)
        if v is None or m is None:
            return None
        if s < 0 or s + m > len(v):
            return None
        return v[s:s + m]

    def vkey(self, st, k):
        """Rows of the value of an expression."""
        if not isinstance(k, tuple) or not k:
            return None
        if k[0] == "path":
            return self.vec(st, k[1])
        if k[0] == "bin" and k[1] == "-" and len(k) == 4:
            return self.difference(st, k[2], k[3])
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n == "operator-":
                a = [x for x in ([k[2]] if k[2] != ("?0",) else []) +
                     list(k[3])]
                if len(a) == 2:
                    return self.difference(st, a[0], a[1])
            if n in ("eval", "matrix", "array", "transpose", "derived"):
                return self.vkey(st, k[2])
        return None

    def difference(self, st, a, b):
        """value - right hand side, in either order."""
        ps = [x[1] for x in (a, b) if x[0] == "path"]
        if len(ps) != 2:
            return None
        for v, r in (ps, ps[::-1]):
            d = st.cl.get(("e", v))
            if d is not None:
                return d
        # not evaluated: whatever the last evaluation left
        l = [self.level(p) for p in ps]
        if all(l) and l[0][0] == l[1][0] and \
                {x[2][:1] for x in l} == {("output",), ("rightHandSide",)}:
            return (0.,) * ROWS[l[0][0]]
        c = [self.constraint(st, p) for p in ps]
        if all(c) and c[0][0] == c[1][0] and \
                {c[0][1][:1], c[1][1][:1]} == {("h_value",),
                                               ("rhs_implicit",)}:
            return (0.,) * len(self.rows(*c[0][0]))
        return None

    # quantities
    def leaf(self, st, k):
        if k[0] == "path":
            p = k[1]
            if ("n", p) in st.cl:
                return None
            if p == ("this", "lastIsOptional_") and self.K != ECS:
                return self.optional
            if self.thr and p == ("arg:" + self.thr[0],):
                return self.thr[1]
            if self.member is not None:
                if p == ("this", "squaredErrorThreshold_") and self.K != ECS:
                    return self.member ** 2
                if self.expl(p) == ("errorThreshold_",):
                    return self.member
            if self.expl(p) == ("errorSize_",):
                return sum(NX)
            if self.K != ECS and p == ("this", "dimension_"):
                return sum(ROWS)
            if p == ("arg:errorThreshold",) and self.member is not None:
                return -1
            return None
        if k[0] != "call":
            return None
        n = k[1].rsplit("::", 1)[-1]
        if n in ("size", "rows") and k[2] and k[2][0] == "path":
            r = self.length(st, k[2][1])
            if r is not None:
                return r
            if k[2][1][-1] == "inequalityIndices":
                return 0
            s = self.split(st, k[2][1])
            return s[2] if s else None
        if n == "empty" and k[2] and k[2][0] == "path":
            r = self.length(st, k[2][1])
            return None if r is None else r == 0
        if n in ("nv", "nq") and k[2] and k[2][0] == "path":
            c = self.constraint(st, k[2][1])
            if c and "outputSpace_" in c[1] and "function_" in c[1]:
                m = len(self.rows(*c[0]))
                return m if n == "nv" else m + 1
        if n in ("squaredNorm", "norm", "stableNorm", "sum", "lpNorm",
                 "maxCoeff", "minCoeff") and \
                k[2]:
            k2, f = k[2], (lambda x: x)
            if n == "sum" and k2[0] == "call" and \
                    k2[1].rsplit("::", 1)[-1] in ("cwiseAbs2", "square"):
                k2 = k2[2]
                n = "squaredNorm"
            v = self.vkey(st, k2)
            if v is not None:
                if n == "squaredNorm":
                    return round(sum(v), 9)
                if n in ("norm", "stableNorm"):
                    return round(sum(v) ** .5, 9)
        if n == "dot" and k[2] and k[3] and k[2] == k[3][0]:
            v = self.vkey(st, k[2])
            return None if v is None else round(sum(v), 9)
        return None

    def write(self, I, st, path, node, how, val=None):
        if how == "alias":
            return
        self.wrote.add(path)
        st.cl = {k: x for k, x in st.cl.items()
                 if not (isinstance(k, tuple) and k[0] in ("c", "v", "e") and
                         k[1][:len(path)] == path)}
        if how in ("=", "decl", "init") and val is not None:
            k = val.k()
            if k[0] == "path" and self.length(st, k[1]) is not None:
                st.cl[("c", path)] = k[1]
                return
        r = self.split(st, path)
        if how in ("=", "decl", "init") and val is not None and r:
            v = self.vkey(st, val.k())
            base, s, m, size = r
            if v is not None:
                old = self.whole(st, base)
                if s == 0 and (m is None or m == len(v) or
                               base == path and size is None):
                    if size is None or size == len(v):
                        self.put(st, base, v)
                        return
                if old is None and size is not None:
                    old = (0.,) * size
                if ("v", base) in st.cl and st.cl[("v", base)] is None:
                    return
                if old is not None and (m is None or m == len(v)) and \
                        s >= 0 and s + len(v) <= len(old):
                    self.put(st, base, old[:s] + v + old[s + len(v):])
                    return
                self.put_unknown(st, base)
                return
        if how != "resize":
            base = path
            while base and isinstance(base[-1], tuple) and \
                    base[-1][0] == "#":
                base = base[:-1]
            if self.whole(st, base) is not None:
                self.put_unknown(st, base)
        if how == "resize" and val is not None:
            m = self.rep(st, val.k())
            if isinstance(m, (int, float)):
                self.put(st, path, (0.,) * int(m))
                return
        Numbers.write(self, I, st, path, node, how, val)

    def put_unknown(self, st, base):
        st.cl = dict(st.cl)
        st.cl[("v", base)] = None       # unknown

    def guess(self, I, st, key):
        if not getattr(I, "asserting", 0):
            st.cl = dict(st.cl)
            st.cl["?"] = True

    def decided(self, I, st, key, value):
        if not getattr(I, "asserting", 0) and \
                self.choose(I, st, key) is None:
            st.cl = dict(st.cl)
            # quantities of the case that could not be followed
            lost = any(p[0][0] in "LTR" or p[:1] == ("arg:error",) or
                       p[0] == "this" and any(
                           x in p for x in ("squaredNorm_", "data_", "datas_",
                                            "stacks_", "diffSmall_"))
                       for p in deps(key))
            st.cl["?" if lost else "fork"] = True

    def at_arg(self, v):
        return v is not None and v.path is not None and v.path == (self.arg,)

    def pre_call(self, I, st, node, ov, avs):
        f = node.get("f") or ""
        n = f.rsplit("::", 1)[-1]
        mine = ov is not None and ov.path is not None
        if n == "setInactiveRowsToZero":
            return [(st, V())]
        if n == "value" and len(avs) == 2 and avs[0].path is not None and \
                mine:
            r = None
            if self.at_arg(avs[1]):
                if self.fun is not None:
                    r = self.function_rows(st, ov.path)
                else:
                    c = self.constraint(st, ov.path)
                    r = c and "function_" in c[1] and self.rows(*c[0])
                    l = self.level(self.real(st, ov.path))
                    if not c and l and l[1] == "stacks_" and \
                            l[2] == ("function_",):
                        r = sum((self.rows("i", l[0], j) for j in (0, 1)),
                                ())
            st.cl = dict(st.cl)
            st.cl.pop(("e", avs[0].path), None)
            if r:
                st.cl[("e", avs[0].path)] = r
            return [(st, V())]
        return None

    def function_rows(self, st, p):
        return None


def truth(I, s, v):
    if isinstance(v, V) and v.const in (True, False) and v.const is not NOC:
        return bool(v.const)
    r = I.C.rep(s, v.k()) if isinstance(v, V) else None
    return r if isinstance(r, bool) else None


def sites(K):
    out = [None]
    if K != ECS:
        out += [("i", i, j) for i in (0, 1) for j in (0, 1)]
    if K != HI:
        out += [("x", 0, j) for j in (0, 1)]
    return out


NAME = {"i": "implicit constraint %d of level %d", "x": "explicit constraint "
        "%d"}


def says(w):
    if w is None:
        return "no constraint"
    return "explicit constraint %d" % w[2] if w[0] == "x" else \
        "implicit constraint %d of priority level %d" % (w[2], w[1])


def satisfied(R, M, K, f):
    R.analysed(f)
    ps = [p["n"] for p in f["ps"]]
    has = [n for n, p in zip(ps, f["ps"]) if p.get("r") == "float"]
    decided = total = 0
    for where in sites(K):
        for sq, thr in CASES:
            for opt in ((False, True) if K != ECS else (False,)):
                for given in ((False, True) if has else (False,)):
                    if K != ECS and has and not given:
                        continue
                    # the threshold that is not in force would decide
                    # otherwise
                    counts = where is not None and not (
                        opt and where[0] == "i" and where[1] == 1)
                    if where is not None and not counts:
                        continue
                    want = not (counts and sq >= thr ** 2)
                    other = 100. if not want else 1e-3
                    C = Errors(K, (where, sq), member=other if given else thr,
                               optional=opt)
                    C.arg = "arg:" + ps[0]
                    if given:
                        C.thr = (has[0], thr)
                    elif has:
                        C.thr = (has[0], -1)
                    I = Interp(M, C)
                    total += 1
                    try:
                        res = I.run(f, V(("this",), cls=K), st=C.start())
                    except TooBig as e:
                        R.unclear("%s: %s" % (f["q"], e))
                        continue
                    done = judge(R, I, K, f, res, want, where, sq, thr, opt,
                                 given)
                    decided += done
    R.count("cases decided", decided)
    if decided < total:
        R.unclear("%s: %d cases of %d not decided" % (f["q"],
                                                      total - decided, total))


def judge(R, I, K, f, res, want, where, sq, thr, opt, given):
    name = "%s::%s(%s)" % (short(K), short(f["q"]), ", ".join(p["n"]
                                                       for p in f["ps"]))
    ok = True
    seen = False
    for kind, s, v in res:
        if kind != "ret":
            continue
        b = truth(I, s, v)
        if b is None or s.cl.get("?"):
            ok = False
            continue
        seen = True
        if b and not want:
            R.bad("C17:%s:accepts:%s" % (name, where and where[0]),
                  "%s returns true although the squared norm of the error of "
                  "%s is %g and the threshold %g%s" % (
                      name, says(where), sq, thr,
                      " is given" if given else ""), f["file"], f["line"],
                  ["last level optional: %s" % opt])
            return 1
        if not b and want and not s.cl.get("fork"):
            R.bad("C17:%s:rejects" % name,
                  "%s returns false although %s and the threshold is %g%s" % (
                      name, "all errors are zero" if where is None else
                      "only %s has an error, of squared norm %g" % (
                          says(where), sq), thr,
                      " (argument)" if given else ""), f["file"], f["line"],
                  ["last level optional: %s" % opt])
            return 1
    if ok and seen:
        R.ok("%s, error of %s, squared norm %g, threshold %g%s: %s" % (
            name, says(where), sq, thr, ", last level optional" if opt
            else "", str(want).lower()))
        return 1
    return 0


class Single(Errors):
    """One constraint, found or not."""

    def __init__(self, K, sq, thr, at):
        Errors.__init__(self, K, None, member=thr)
        self.norm2 = sq
        self.at = at            # position in the set of explicit constraints
        self.fun = True
        self.own = None         # the constraint received

    def function_rows(self, st, p):
        if p[0] == self.own:
            return (self.norm2 / 2,) * 2
        c = self.constraint(st, p)
        if c and c[0][0] == "x" and "function_" in c[1]:
            return (self.norm2 / 2 if c[0][2] == self.at else 0.,) * 2
        return None

    def dim(self, st, base):
        return 2 if base == self.err else Errors.dim(self, st, base)

    def whole(self, st, p):
        if ("v", p) not in st.cl and p == self.err:
            return (0.,) * 2
        return Errors.whole(self, st, p)

    def place(self, st, k):
        if k[0] != "path":
            return None
        c = self.constraint(st, k[1])
        if c and c[0][0] == "x" and c[1][:1] == ("constraint",):
            return c[0][2]
        return "own" if k[1][0] == self.own else None

    def choose(self, I, st, key):
        if key[0] == "cmp" and key[1] == "==":
            a = {self.place(st, key[2]), self.place(st, key[3])}
            if "own" in a and len(a) == 2 and None not in a:
                return self.at in a
        if key[0] == "truth" and key[1][0] == "call":
            k = key[1]
            ks = ([k[2]] if k[2] != ("?0",) else []) + list(k[3])
            if k[1].rsplit("::", 1)[-1] in ("operator==", "isEqual") and \
                    len(ks) == 2:
                a = {self.place(st, x) for x in ks}
                if "own" in a and len(a) == 2 and None not in a:
                    return self.at in a
        return Errors.choose(self, I, st, key)

    def difference(self, st, a, b):
        ps = [x[1] for x in (a, b) if x[0] == "path"]
        if len(ps) == 2:
            for v, r in (ps, ps[::-1]):
                if ("e", v) in st.cl:
                    return st.cl[("e", v)]
            return (0.,) * 2
        return None

    SEARCH = ("priority_", "iq_", "iv_", "data_", "constraints_")

    def decided(self, I, st, key, value):
        if not any(mentions(key, x) for x in self.SEARCH):
            Errors.decided(self, I, st, key, value)

    def guess(self, I, st, key):
        if not any(mentions(key, x) for x in self.SEARCH):
            Errors.guess(self, I, st, key)


def single(R, M, K, f):
    R.analysed(f)
    ps = [p["n"] for p in f["ps"]]
    flag = [p["n"] for p in f["ps"] if p.get("r") == "bool"]
    if len(ps) < 4 or not flag:
        return
    name = "%s::isConstraintSatisfied" % short(K)
    bad = False
    done = total = 0
    for at in ((0, 1, None) if K == ECS else (None,) if K == HI else
               (0, 1, None)):
        for sq, thr in CASES:
            C = Single(K, sq, thr, at)
            C.own, C.arg, C.err = ["arg:" + x for x in ps[:3]]
            C.err = (C.err,)
            fl = ("arg:" + flag[0],)
            I = Interp(M, C)
            total += 1
            try:
                res = I.run(f, V(("this",), cls=K), st=C.start())
            except TooBig as e:
                R.unclear("%s: %s" % (name, e))
                continue
            for kind, s, v in res:
                if kind != "ret":
                    continue
                b = truth(I, s, v)
                fo = s.cl.get(("n", fl), s.scal.get(fl))
                if b is None or s.cl.get("?"):
                    continue
                done += 1
                if b and sq >= thr ** 2:
                    R.bad("C17:%s:accepts" % name, "%s returns true although "
                          "the squared norm of the error is %g and the "
                          "threshold %g" % (name, sq, thr), f["file"],
                          f["line"])
                    bad = True
                elif not b and fo is True and sq < thr ** 2 and \
                        not s.cl.get("fork"):
                    R.bad("C17:%s:rejects" % name, "%s returns false although "
                          "the squared norm of the error is %g and the "
                          "threshold %g" % (name, sq, thr), f["file"],
                          f["line"])
                    bad = True
                elif fo is True and K == ECS and at is None:
                    R.bad("C17:%s:found" % name, "%s reports as found a "
                          "constraint that is not in the set" % name,
                          f["file"], f["line"])
                    bad = True
                elif at is not None and fo is False:
                    R.bad("C17:%s:lost" % name, "%s does not find a "
                          "constraint of the set" % name, f["file"],
                          f["line"])
                    bad = True
    if not bad:
        R.ok("%s: %d cases, %d paths" % (name, total, done))
    if not done:
        R.unclear(name)


def setters(R, M):
    for K in (HI, BS, ECS):
        for f in M.methods(K, "errorThreshold"):
            if f.get("body") is None:
                continue
            R.analysed(f)
            name = "%s::errorThreshold" % short(K)
            C = Errors(K, member=None if f["ps"] else 2.)
            if f["ps"]:
                C.thr = (f["ps"][0]["n"], 3.)
            I = Interp(M, C)
            try:
                res = I.run(f, V(("this",), cls=K), st=C.start())
            except TooBig as e:
                R.unclear("%s: %s" % (name, e))
                continue
            for kind, s, v in res:
                if kind != "ret":
                    continue
                if not f["ps"]:
                    r = C.rep(s, v.k()) if isinstance(v, V) else None
                    if isinstance(r, (int, float)):
                        R.check(abs(r - 2.) < 1e-9, "C17:%s:value" % name,
                                "%s does not return the threshold the tests "
                                "use" % name, f["file"], f["line"],
                                text="%s returns the threshold in force"
                                % name)
                    continue
                need = []
                if K != ECS:
                    need.append((("this", "squaredErrorThreshold_"), 9.))
                if K == BS:
                    need.append((("this", "explicit_", "errorThreshold_"),
                                 3.))
                if K == ECS:
                    need.append((("this", "errorThreshold_"), 3.))
                for p, x in need:
                    got = s.cl.get(("n", p))
                    if got is None and p in C.wrote:
                        R.unclear("%s: value of %s" % (name, show_path(p)))
                        continue
                    R.check(got is not None and abs(got - x) < 1e-9,
                            "C17:%s:%s" % (name, p[-1]),
                            "%s(t) leaves %s, which satisfaction tests "
                            "compare with, %s" % (
                                name, show_path(p), "as it was" if got is None
                                else "with another value than t" +
                                (" squared" if x == 9. else "")),
                            f["file"], f["line"],
                            text="%s sets %s" % (name, show_path(p)))
