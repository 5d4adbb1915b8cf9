"""C13: each comparison type is handled as documented."""
from ..interp import NOC, Interp, State, TooBig, V
from ..model import short
from ..solver import BS, ECS, HI
from ..tables import Tables, runs, settle

EXPLAIN = """Case analysis of the functions that distinguish comparison types.
The case fixes the comparison type of each row, the raw difference to the right
hand side of each row and the inequality threshold; the functions are
interpreted abstractly with vectors and index lists followed row by row. The
rows of the error and of the Jacobian, the index lists derived from comparison
types, and the right hand sides left by each function that sets them are
compared with the documented meaning."""

IMP = "hpp::constraints::Implicit"
C = "hpp::constraints::"
EQ, EZ, SUP, INF = C + "Equality", C + "EqualToZero", C + "Superior", \
    C + "Inferior"
SHORT = {EQ: "Equality", EZ: "EqualToZero", SUP: "Superior", INF: "Inferior"}
THR = .5
# comparison types of the rows of two levels
COMP = ((EQ, SUP, EZ, INF, SUP), (INF, EQ, INF, EZ))
# raw differences
RAW = (((1., -1., -2., 1., .2), (-.2, -3., 2., .3)),
       ((-4., .7, .1, -.7, -.2), (-.6, .1, .3, -2.)),
       ((.3, .3, .7, -.3, .6), (.6, .1, -1., .2)))


def want(c, x):
    """Error and whether the row counts."""
    if c == SUP:
        return (x - THR, True) if x < THR else (0., False)
    if c == INF:
        return (x + THR, True) if x > -THR else (0., False)
    return x, True


def run(R, M):
    R.rule("equality rows keep the difference to the right hand side, "
           "inequality rows count shortfalls below, or excesses above, the "
           "threshold only, in the error and in the Jacobian")
    R.rule("index lists of equalities and inequalities follow the comparison "
           "types")
    R.rule("right hand sides are set on Equality rows only")
    R.assume("two levels and the rows of the cases stand for any number")
    values(R, M)
    single(R, M)
    indices(R, M)
    rhs_implicit(R, M)
    rhs_explicit(R, M)
    refused(R, M)
    whole(R, M)
    parameters(R, M)


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9
    return a == b


def mentions(k, names):
    if isinstance(k, tuple):
        return any(mentions(x, names) for x in k)
    return isinstance(k, str) and k.rsplit("::", 1)[-1] in names


class Rows(Tables):
    """Rows of the levels of a hierarchical solver."""
    assume_asserts = False
    TRACK = ("datas_", "stacks_", "inequalityThreshold_", "comparison_",
             "equalityIndices_", "inequalityIndices_", "inactiveRows_",
             "activeRows_", "mask_", "logOutput_", "output_")

    def __init__(self, comp, raw, inactive=((), ())):
        self.comp, self.raw, self.inactive = comp, raw, inactive
        self.arg = None

    def level(self, p):
        if len(p) > 2 and p[0] == "this" and p[1] in ("stacks_", "datas_"):
            x = p[2]
            if isinstance(x, tuple) and x[0] == "[]" and len(x) > 1:
                i = {("lit", 0): 0, ("lit", 1): 1, "front": 0,
                     "back": 1}.get(x[1])
                if i is not None:
                    return i, p[1], p[3:]
        return None

    def initial(self, st, p):
        if p in (("this", "stacks_"), ("this", "datas_")):
            return (None,) * len(self.comp)
        l = self.level(p)
        if l:
            i, w, r = l
            c = self.comp[i]
            if r in (("comparison",), ("comparison_",)):
                return c
            if r in (("inequalityIndices",), ("inequalityIndices_",)):
                return tuple(j for j, x in enumerate(c) if x in (SUP, INF))
            if r in (("equalityIndices",), ("equalityIndices_",)):
                return runs({j for j, x in enumerate(c) if x == EQ})
            if r == ("inactiveRows_",):
                return runs(set(self.inactive[i]))
            if r == ("activeRows_",):
                return runs(set(range(len(c))) - set(self.inactive[i]))
            if r == ("mask_",):
                return tuple(j not in self.inactive[i]
                             for j in range(len(c)))
            if r == ("error",):
                return tuple(("stale", j) for j in range(len(c)))
            if r in (("jacobian",), ("reducedJ",)):
                return tuple(("stale", j) for j in range(len(c)))
            if r == ("activeRowsOfJ",):
                return runs(set(range(len(c))) - set(self.inactive[i]))
        return None

    def quantity(self, st, k):
        if k[0] == "path" and k[1] == ("this", "inequalityThreshold_"):
            return THR
        if k[0] == "path" and k[1] in (("this", "squaredErrorThreshold_"),
                                       ("this", "errorThreshold_")):
            return 9.
        return None

    def special(self, st, k):
        ks = None
        if k[0] == "bin" and k[1] == "-" and len(k) == 4:
            ks = k[2:]
        elif k[0] == "call" and k[1].rsplit("::", 1)[-1] == "operator-":
            ks = [x for x in ([k[2]] if k[2] != ("?0",) else []) + list(k[3])]
        if ks and len(ks) == 2 and all(x[0] == "path" for x in ks):
            return self.difference(st, ks[0][1], ks[1][1])
        return None

    def difference(self, st, a, b):
        a, b = self.real(st, a), self.real(st, b)
        l, m = self.level(a), self.level(b)
        if l and m and l[0] == m[0] and l[2][:1] == ("output",) and \
                m[2][:1] == ("rightHandSide",):
            return self.raw[l[0]]
        return None

    def at_arg(self, v):
        return v is not None and v.path == (self.arg,)

    def pre_call(self, I, st, node, ov, avs):
        n = (node.get("f") or "").rsplit("::", 1)[-1]
        if n == "jacobian" and len(avs) == 2 and avs[0].path is not None and \
                node.get("f", "").startswith("hpp::constraints::Diff"):
            l = self.level(self.real(st, avs[0].path))
            if l and l[2] == ("jacobian",):
                self.put(st, avs[0].path, tuple(
                    ("J", l[0], j) for j in range(len(self.comp[l[0]]))))
                return [(st, V())]
        if n.startswith("dDifference") or n == "checkNormalized":
            return [(st, V())]
        if n == "value" and len(avs) == 2 and avs[0].path is not None:
            return [(st, V())]
        return Tables.pre_call(self, I, st, node, ov, avs)


def values(R, M, pid="C13", inact=(((), ()),), comp=COMP):
    n = 0
    for f in M.methods(HI, "computeValue"):
        if f.get("body") is None:
            continue
        R.analysed(f)
        jac = jac_mode(f)
        if jac is None:
            continue
        done = 0
        bad = False
        for raw in RAW:
            for ina in inact:
                C_ = Rows(comp, raw, ina)
                C_.arg = "arg:" + f["ps"][0]["n"]
                I = Interp(M, C_)
                try:
                    res = I.run(f, V(("this",), cls=HI))
                except TooBig as e:
                    R.unclear("%s: %s" % (f["q"], e))
                    continue
                found = []
                for kind, s, v in res:
                    if kind != "ret":
                        continue
                    done += 1
                    found.append((s, compare(R, C_, s, pid, raw, ina, jac)))
                bad |= settle(R, found, f)
        n += 1
        if done and not bad:
            R.ok("computeValue<%s>: %d cases" % (str(jac).lower(), done))
        R.count("cases", done)
    if not n:
        R.unclear("computeValue not found")


def jac_mode(f):
    t = f.get("ta") or ""
    if "true" in t:
        return True
    if "false" in t:
        return False
    return None


def compare(R, C_, s, pid, raw, ina, jac):
    bad = []
    for i, comp in enumerate(C_.comp):
        e = C_.get(s, ("this", "datas_", ("[]", ("lit", i)), "error"))
        J = C_.get(s, ("this", "datas_", ("[]", ("lit", i)), "jacobian"))
        if e is None or len(e) != len(comp):
            R.unclear("computeValue: error of level %d" % i)
            continue
        for j, c in enumerate(comp):
            w, counts = want(c, raw[i][j])
            off = j in ina[i]
            if off:
                w = 0
            if e[j] is None:
                R.unclear("computeValue: row of type %s" % SHORT[c])
            elif not close(e[j], w):
                bad.append(("%s:computeValue:%s%s" % (
                    pid, "inactive:" if off else "", SHORT[c]),
                      "computeValue leaves error %s instead of %g on %s row "
                      "of type %s where value minus right hand side is %g "
                      "(inequality threshold %g)" % (
                          say(e[j]), w, "an inactive" if off else "a",
                          SHORT[c], raw[i][j], THR), None))
        if not jac:
            if J and any(isinstance(x, (int, float)) for x in J):
                R.unclear("computeValue<false> writes the Jacobian")
            continue
        if J is None or len(J) != len(comp):
            R.unclear("computeValue: Jacobian of level %d" % i)
            continue
        for j, c in enumerate(comp):
            w, counts = want(c, raw[i][j])
            if j in ina[i]:
                continue        # does not matter: removed from reducedJ
            exp = ("J", i, j) if counts else 0
            if J[j] is None:
                R.unclear("computeValue: Jacobian row of type %s" % SHORT[c])
            elif J[j] != exp:
                bad.append(("%s:computeValue:jacobian:%s" % (pid, SHORT[c]),
                      "computeValue %s the Jacobian row of a row of type %s "
                      "where value minus right hand side is %g (inequality "
                      "threshold %g)" % (
                          "erases" if counts else "keeps", SHORT[c],
                          raw[i][j], THR), None))
        D = C_.get(s, ("this", "datas_", ("[]", ("lit", i)), "reducedJ"))
        rows = [x for j, x in enumerate(
            [("J", i, j) if want(c, raw[i][j])[1] else 0
             for j, c in enumerate(comp)]) if j not in ina[i]]
        if D is None or None in D:
            R.unclear("computeValue: reducedJ of level %d" % i)
        elif [x for x in D] != rows:
            bad.append(("%s:computeValue:reducedJ" % pid,
                  "computeValue leaves in reducedJ rows that are not the "
                  "active rows of the Jacobian after comparison types are "
                  "applied",
                  ["got %s" % (D,), "expected %s" % (rows,)]))
    return bad


def say(x):
    return "%g" % x if isinstance(x, (int, float)) else \
        "of an earlier evaluation" if isinstance(x, tuple) and \
        x[0] == "stale" else str(x)


class Single(Rows):
    """Rows iv .. iv + nv of level 1 are the constraint."""
    IV, NVC, IQ = 2, 3, 3

    def __init__(self, comp, raw, inactive):
        Rows.__init__(self, ((EQ, EQ), comp), ((0., 0.), (9.,) * len(comp)))
        self.rawc = raw
        self.ina = inactive
        self.own = self.err = None

    def initial(self, st, p):
        if p == (self.own, "inactiveRows_"):
            return runs(set(self.ina))
        if p == (self.own, "activeRows_"):
            return runs(set(range(self.NVC)) - set(self.ina))
        if p == (self.own, "mask_"):
            return tuple(j not in self.ina for j in range(self.NVC))
        if p == (self.own, "comparison_"):
            return self.comp[1][self.IV:self.IV + self.NVC]
        if p == (self.own, "inequalityIndices_"):
            return tuple(j for j, x in enumerate(
                self.comp[1][self.IV:self.IV + self.NVC])
                if x in (SUP, INF))
        if p == (self.err,):
            return tuple(("stale", j) for j in range(self.NVC))
        return Rows.initial(self, st, p)

    def quantity(self, st, k):
        if k[0] == "path":
            p = k[1]
            if p[-1] == "second" and len(p) > 1:
                if "iv_" in p:
                    return self.IV
                if "iq_" in p:
                    return self.IQ
                if "priority_" in p:
                    return 1
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n in ("nv", "nq") and k[2] and k[2][0] == "path" and \
                    k[2][1][0] == self.own:
                return self.NVC + (n == "nq")
            if n in ("outputDerivativeSize", "outputSize"):
                return self.NVC + (n == "outputSize")
        return Rows.quantity(self, st, k)

    def difference(self, st, a, b):
        return self.rawc


def single(R, M, pid="C13", inas=((),)):
    for f in M.methods(HI, "isConstraintSatisfied"):
        if f.get("body") is None or len(f["ps"]) < 4:
            continue
        R.analysed(f)
        done, bad = 0, False
        for comp in ((EQ, INF, SUP, INF, EQ, INF), (SUP, EQ, INF, EZ, SUP),
                     (EQ, EQ, EZ, SUP, INF, SUP)):
            for raw in ((-1., 1., .2), (.7, -.7, .8), (.2, -.2, -.3)):
                for ina in inas:
                    C_ = Single(comp, raw, ina)
                    C_.own, C_.arg, C_.err = ["arg:" + p["n"]
                                              for p in f["ps"][:3]]
                    I = Interp(M, C_)
                    try:
                        res = I.run(f, V(("this",), cls=HI))
                    except TooBig as e:
                        R.unclear("%s: %s" % (f["q"], e))
                        continue
                    own = comp[2:5]
                    w = [0. if j in ina else want(own[j], raw[j])[0]
                         for j in range(3)]
                    found = []
                    for kind, s, v in res:
                        if kind != "ret":
                            continue
                        e = C_.get(s, (C_.err,))
                        if e is None or None in e or len(e) != 3:
                            R.unclear("isConstraintSatisfied: error")
                            continue
                        if all(isinstance(x, tuple) for x in e):
                            continue        # constraint not found
                        done += 1
                        vs = []
                        for j in range(3):
                            if not close(e[j], w[j]):
                                vs.append(("%s:isConstraintSatisfied:%s%s" % (
                                    pid, "inactive:" if j in ina else "",
                                    SHORT[own[j]]),
                                    "isConstraintSatisfied gives error %s "
                                    "instead of %g on row %d of type %s where "
                                    "value minus right hand side is %g"
                                    % (say(e[j]), w[j], j, SHORT[own[j]],
                                       raw[j]), None))
                        found.append((s, vs))
                    bad |= settle(R, found, f)
        if done and not bad:
            R.ok("HierarchicalIterative::isConstraintSatisfied: %d cases"
                 % done)
        elif not done:
            R.unclear("isConstraintSatisfied")


class Own(Rows):
    """Tables of one implicit constraint (this)."""

    def __init__(self, comp, lists=None):
        Rows.__init__(self, ((EQ,), (EQ,)), ((0,), (0,)))
        self.comp_ = comp
        self.lists = lists or {}

    def initial(self, st, p):
        if p in self.lists:
            return self.lists[p]
        if p == ("this", "comparison_"):
            return self.comp_
        if p == ("this", "equalityIndices_"):
            return runs({j for j, x in enumerate(self.comp_) if x == EQ})
        if p == ("this", "inequalityIndices_"):
            return tuple(j for j, x in enumerate(self.comp_)
                         if x in (SUP, INF))
        return None

    def quantity(self, st, k):
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n == "nv":
                return len(self.comp_)
            if n == "outputDerivativeSize":
                return len(self.comp_)
        return None


COMPS = ((EQ, EZ, SUP, INF, EQ), (SUP, EQ, EQ, EZ), (EZ, EZ), (INF, SUP, EQ),
         (EQ, EQ))


def indices(R, M):
    """Lists of indices after comparison types are set."""
    for K, name in ((IMP, "comparisonType"), (IMP, "computeIndices")):
        for f in M.methods(K, name):
            if f.get("body") is None or name == "comparisonType" and \
                    not f["ps"]:
                continue
            R.analysed(f)
            ok = done = 0
            for comp in COMPS:
                C_ = Own(comp, {("this", "equalityIndices_"): (("seg", 7, 2),),
                                ("this", "inequalityIndices_"): (8, 9)})
                if f["ps"]:
                    C_.lists[("arg:" + f["ps"][0]["n"],)] = comp
                    C_.lists[("this", "comparison_")] = (EZ,) * 3
                I = Interp(M, C_)
                try:
                    res = I.run(f, V(("this",), cls=IMP))
                except TooBig as e:
                    R.unclear("%s: %s" % (f["q"], e))
                    continue
                found = []
                for kind, s, v in res:
                    if kind != "ret":
                        continue
                    done += 1
                    found.append((s, tables(R, C_, s, f, comp)))
                ok += not settle(R, found, f)
            if done and ok == len(COMPS):
                R.ok("Implicit::%s: %d cases" % (name, done))
            elif not done:
                R.unclear(f["q"])
    for K, f in ((ECS + "::Data", f) for f in M.methods(ECS + "::Data",
                                                        "Data")):
        if f.get("body") is None or not f["ps"]:
            continue
        R.analysed(f)
        for comp in COMPS:
            C_ = Own(comp)
            a = "arg:" + f["ps"][0]["n"]
            for p in ((a,), ("this", "constraint")):
                C_.lists[p + ("comparison_",)] = comp
            C_.lists[("this", "equalityIndices")] = ()
            C_.lists[("this", "equalityIndices_")] = None
            I = Interp(M, C_)
            try:
                res = I.run(f, V(("this",), cls=ECS + "::Data"))
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            found = []
            for kind, s, v in res:
                if kind != "ret":
                    continue
                m = C_.rows(s, ("path", ("this", "equalityIndices")))
                exp = [j for j, x in enumerate(comp) if x == EQ]
                if m is None:
                    R.unclear("ExplicitConstraintSet::Data: indices")
                    continue
                found.append((s, [] if sorted(set(m)) == exp else [(
                    "C13:explicit:equalityIndices",
                    "equality indices of an explicit constraint of "
                    "comparison types %s are %s" % (
                        [SHORT[c] for c in comp], m), None)]))
            if found and not settle(R, found, f):
                R.ok("explicit constraint, comparison types %s" %
                     [SHORT[c] for c in comp])


def tables(R, C_, s, f, comp):
    vs = []
    m = C_.rows(s, ("path", ("this", "equalityIndices_")))
    q = C_.rows(s, ("path", ("this", "inequalityIndices_")))
    for got, exp, what in (
            (m, [j for j, x in enumerate(comp) if x == EQ], "equality"),
            (q, [j for j, x in enumerate(comp) if x in (SUP, INF)],
             "inequality")):
        if got is None:
            R.unclear("%s: %s indices" % (f["q"], what))
        elif sorted(set(got)) != exp or what == "inequality" and \
                len(got) != len(exp):
            vs.append(("C13:%s:%s" % (short(f["q"]), what),
                  "%s leaves %s indices %s for comparison types %s" % (
                      short(f["q"]), what, got, [SHORT[c] for c in comp]),
                  None))
    return vs


# ---------------------------------------------------------- right hand sides
class Rhs(Own):
    def __init__(self, comp, lists, fun=None):
        Own.__init__(self, comp, lists)
        self.fun = fun

    def difference(self, st, a, b):
        return None

    def pre_call(self, I, st, node, ov, avs):
        n = (node.get("f") or "").rsplit("::", 1)[-1]
        if n == "value" and len(avs) == 2 and avs[0].path is not None:
            self.changed(I, st, avs[0].path, n)
            self.put(st, avs[0].path, tuple(
                1. + j for j in range(len(self.comp_))))
            return [(st, V())]
        return Tables.pre_call(self, I, st, node, ov, avs)


def rhs_implicit(R, M):
    for f in M.methods(IMP, "rightHandSideFromConfig"):
        if f.get("body") is None or len(f["ps"]) != 2:
            continue
        R.analysed(f)
        out = ("arg:" + f["ps"][1]["n"],)
        for comp in COMPS:
            n = len(comp)
            C_ = Rhs(comp, {("this", "output_"): (8.,) * n,
                            ("this", "logOutput_"): (9.,) * n,
                            out: (7.,) * n})
            I = Interp(M, C_)
            try:
                res = I.run(f, V(("this",), cls=IMP))
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            judge_rhs(R, C_, f, res, out, comp,
                      [1. + j if c == EQ else 0 for j, c in enumerate(comp)])
    for f in M.methods(IMP, "checkRightHandSide"):
        if f.get("body") is None:
            continue
        R.analysed(f)
        a = ("arg:" + f["ps"][0]["n"],)
        for comp in COMPS:
            n = len(comp)
            for k in range(-1, n):
                v = [1.] * n if k < 0 else [float(j == k) for j in range(n)]
                if k < 0:
                    v = [1. if c == EQ else 0. for c in comp]
                C_ = Rhs(comp, {("this", "logOutput_"): (9.,) * n,
                                a: tuple(v)})
                I = Interp(M, C_)
                try:
                    res = I.run(f, V(("this",), cls=IMP))
                except TooBig as e:
                    R.unclear("%s: %s" % (f["q"], e))
                    continue
                exp = all(x == 0 or c == EQ for x, c in zip(v, comp))
                seen = set()
                for kind, s, r in res:
                    if kind != "ret":
                        continue
                    b = r.const if isinstance(r, V) else NOC
                    if b not in (True, False):
                        b = C_.rep(s, r.k()) if isinstance(r, V) else None
                    seen.add(b)
                text = "checkRightHandSide %s a right hand side that is " \
                    "zero but on rows of type %s"
                if None in seen or not seen:
                    R.unclear("checkRightHandSide")
                elif not exp:
                    R.check(True not in seen, "C13:checkRightHandSide",
                            text % ("accepts", {SHORT[c] for c, x in
                                                zip(comp, v) if x}),
                            f["file"], f["line"], text="checkRightHandSide")
                else:
                    R.check(True in seen, "C13:checkRightHandSide:rejects",
                            text % ("rejects", {SHORT[c] for c, x in
                                                zip(comp, v) if x}),
                            f["file"], f["line"], text="checkRightHandSide")


def judge_rhs(R, C_, f, res, out, comp, exp):
    found = []
    for kind, s, v in res:
        if kind != "ret":
            continue
        r = C_.items(s, ("path", out))
        if r is None or None in r or len(r) != len(comp):
            R.unclear("%s: right hand side" % f["q"])
            continue
        vs = []
        for j, c in enumerate(comp):
            if not close(r[j], exp[j]):
                vs.append(("C13:%s:%s" % (short(f["q"]), SHORT[c]),
                      "%s sets the right hand side of a row of type %s to "
                      "%s instead of %s" % (
                          f["q"].replace("hpp::constraints::", ""), SHORT[c],
                          r[j], "the value of the row" if exp[j] else "zero"),
                      None))
        found.append((s, vs))
    if found and not settle(R, found, f):
        R.ok("%s: comparison types %s" % (short(f["q"]),
                                          [SHORT[c] for c in comp]))


class Explicits(Tables):
    """Set of two explicit constraints."""
    assume_asserts = False
    TRACK = ("data_",)

    def __init__(self, comps, par, at):
        self.comps, self.par, self.at = comps, par, at

    def place(self, st, p):
        p = self.real(st, p)
        if len(p) > 2 and p[:2] == ("this", "data_") and \
                isinstance(p[2], tuple) and p[2][0] == "[]" and len(p[2]) > 1:
            i = {("lit", 0): 0, ("lit", 1): 1}.get(p[2][1])
            if i is not None:
                return i, p[3:]
        return None

    def initial(self, st, p):
        if p == ("this", "data_"):
            return (None, None)
        c = self.place(st, p)
        if c:
            i, r = c
            n = len(self.comps[i])
            if r == ("equalityIndices",):
                return runs({j for j, x in enumerate(self.comps[i])
                             if x == EQ})
            if r == ("constraint", "comparison_"):
                return self.comps[i]
            if r == ("rhs_implicit",):
                return tuple(("old", i, j) for j in range(n))
            if r == ("h_value",):
                return tuple(("oldh", i, j) for j in range(n))
        if p == (self.par,):
            if self.at is None:
                return tuple(("q", i, j) for i in (0, 1)
                             for j in range(len(self.comps[i]) + 1))
            return tuple(("q", self.at, j)
                         for j in range(len(self.comps[self.at]) + 1))
        return None

    def quantity(self, st, k):
        if k[0] == "path" and self.at is not None and k[1] == ("arg:i",):
            return self.at
        if k[0] == "call" and k[2] and k[2][0] == "path":
            n = k[1].rsplit("::", 1)[-1]
            c = self.place(st, k[2][1])
            if n in ("nv", "nq") and c:
                return len(self.comps[c[0]]) + (n == "nq")
        return None

    def logof(self, st, items):
        if items and items[0] is not None and items[0][0] == "q":
            i = items[0][1]
            if items == tuple(("q", i, j)
                              for j in range(len(self.comps[i]) + 1)):
                return tuple(("v", i, j) for j in range(len(self.comps[i])))
            return tuple(("wrong", items) for x in items)
        return items

    def pre_call(self, I, st, node, ov, avs):
        n = (node.get("f") or "").rsplit("::", 1)[-1]
        if n == "value" and len(avs) == 2 and avs[0].path is not None and \
                ov is not None and ov.path is not None:
            c = self.place(st, ov.path)
            p = avs[0].path
            self.changed(I, st, p, n)
            if c:
                self.put(st, p, tuple(("v", c[0], j) for j in
                                      range(len(self.comps[c[0]]))))
            return [(st, V())]
        return Tables.pre_call(self, I, st, node, ov, avs)


def rhs_explicit(R, M):
    comps = ((EQ, EZ, EQ), (EZ, EQ))
    fs = [f for n in ("rightHandSide", "rightHandSideFromInput")
          for f in M.methods(ECS, n) if f.get("body") is not None and f["ps"]]
    for f in fs:
        p0 = f["ps"][0]
        one = p0.get("r") in ("long", "int", "unsigned long") or \
            p0["n"] == "i" and len(f["ps"]) == 2
        if len(f["ps"]) == 2 and not one:
            continue            # by constraint: calls one of the others
        par = "arg:" + f["ps"][-1]["n"]
        R.analysed(f)
        for at in ((0, 1) if one else (None,)):
            C_ = Explicits(comps, par, at)
            I = Interp(M, C_)
            try:
                res = I.run(f, V(("this",), cls=ECS))
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            found = []
            for kind, s, v in res:
                if kind != "ret":
                    continue
                vs = []
                for i in (0, 1):
                    r = C_.items(s, ("path", (
                        "this", "data_", ("[]", ("lit", i)),
                        "rhs_implicit")))
                    if r is None or None in r:
                        R.unclear("%s: right hand side" % f["q"])
                        continue
                    set_ = at is None or at == i
                    exp = tuple(
                        (("v", i, j) if c == EQ else 0) if set_ else
                        ("old", i, j) for j, c in enumerate(comps[i]))
                    if r != exp:
                        vs.append(("C13:explicit:%s:%s" % (
                            short(f["q"]), len(f["ps"])),
                            "%s leaves a right hand side that is not the "
                            "value given on Equality rows and zero on "
                            "EqualToZero rows"
                            % f["q"].replace("hpp::constraints::", ""),
                            ["constraint %d, comparison types %s" % (
                                i, [SHORT[c] for c in comps[i]]),
                             "got %s" % (r,), "expected %s" % (exp,)]))
                found.append((s, vs))
            if found and not settle(R, found, f):
                R.ok("%s(%s)" % (short(f["q"]), ", ".join(
                    p["n"] for p in f["ps"])))


# ------------------------------------------------------------------ refusals
class Refuse(Own):
    assume_asserts = True

    MATTER = ("comparison_", "comparison", "logOutput_", "error", "[]")

    def decided(self, I, st, key, value):
        if getattr(I, "asserting", 0) and self.choose(I, st, key) is None:
            self.guess(I, st, key)

    def guess(self, I, st, key):
        if getattr(I, "asserting", 0) and mentions(key, self.MATTER) and \
                not mentions(key, ("space", "size", "rows", "nq", "nv")):
            st.cl = dict(st.cl)
            st.cl["?"] = True


def refused(R, M):
    """Right hand sides of rows of another type do not get in."""
    for f in M.methods(HI, "rightHandSide"):
        if f.get("body") is None or len(f["ps"]) != 2:
            continue
        R.analysed(f)
        own, par = ["arg:" + p["n"] for p in f["ps"]]
        for c in (EZ, SUP, INF):
            comp = (EQ, c, EQ)
            C_ = Refuse(comp, {(par,): (0., 3., 0.),
                               (own, "comparison_"): comp,
                               (own, "logOutput_"): (9.,) * 3,
                               (own, "equalityIndices_"):
                                   (("seg", 0, 1), ("seg", 2, 1))})
            I = Interp(M, C_)
            try:
                res = I.run(f, V(("this",), cls=HI))
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            through = [s for kind, s, v in res if kind == "ret" and not (
                isinstance(v, V) and v.const is False)]
            if any(s.cl.get("?") for s in through):
                R.unclear("%s: assertions" % f["q"])
                continue
            for s in through:
                w = [p for k in s.cl if k[0] == "l" for p in [k[1]]
                     if "rightHandSide" in p]
                r = C_.items(s, ("path", w[0])) if w else None
            R.check(not through, "C13:rightHandSide:%s" % SHORT[c],
                    "HierarchicalIterative::rightHandSide(constraint, rhs) "
                    "accepts a non zero right hand side on a row of type %s"
                    % SHORT[c], f["file"], f["line"],
                    text="rightHandSide(constraint, rhs), row of type %s"
                    % SHORT[c])


class Whole(Refuse):
    """Right hand side of a solver as a whole."""

    def __init__(self, par, comps, values):
        Refuse.__init__(self, comps[0])
        self.comp = comps
        self.raw = ((0.,) * len(comps[0]), (0.,) * len(comps[1]))
        self.inactive = ((), ())
        self.lists = {(par,): tuple(values)}

    def initial(self, st, p):
        if p in self.lists:
            return self.lists[p]
        l = self.level(p)
        if l and l[2] in (("rightHandSide",), ("output",)):
            return tuple(("old", l[0], j)
                         for j in range(len(self.comp[l[0]])))
        return Rows.initial(self, st, p)

    def quantity(self, st, k):
        if k[0] == "call" and k[2] and k[2][0] == "path":
            n = k[1].rsplit("::", 1)[-1]
            l = self.level(self.real(st, k[2][1]))
            if n in ("nv", "nq", "outputSize", "outputDerivativeSize") and l:
                return len(self.comp[l[0]])
        return None

    def special(self, st, k):
        ks = None
        if k[0] == "bin" and k[1] in ("-", "+") and len(k) == 4:
            ks = k[2:]
        elif k[0] == "call" and k[1].rsplit("::", 1)[-1] in ("operator-",
                                                             "operator+"):
            ks = [x for x in ([k[2]] if k[2] != ("?0",) else []) + list(k[3])]
        if ks and len(ks) == 2:
            a, b = ks
            if mentions(a, ("neutral",)):
                a, b = b, a
            if mentions(b, ("neutral",)):
                return self.items(st, a)
        return None


def whole(R, M):
    comps = ((EQ, EZ, EQ), (EQ, SUP, INF, EQ))
    for f in M.methods(HI, "rightHandSide"):
        if f.get("body") is None or len(f["ps"]) != 1:
            continue
        R.analysed(f)
        flat = [c for x in comps for c in x]
        for at in [None] + [j for j, c in enumerate(flat) if c != EQ]:
            v = [float(j + 1) if c == EQ or j == at else 0.
                 for j, c in enumerate(flat)]
            C_ = Whole("arg:" + f["ps"][0]["n"], comps, v)
            I = Interp(M, C_)
            try:
                res = I.run(f, V(("this",), cls=HI))
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            through = [s for kind, s, v_ in res if kind == "ret"]
            if any(s.cl.get("?") for s in through):
                R.unclear("%s: assertions" % f["q"])
                continue
            if at is not None:
                R.check(not through, "C13:rightHandSide:vector:%s"
                        % SHORT[flat[at]],
                        "HierarchicalIterative::rightHandSide(rhs) accepts a "
                        "non zero right hand side on a row of type %s"
                        % SHORT[flat[at]], f["file"], f["line"],
                        text="rightHandSide(rhs), row of type %s"
                        % SHORT[flat[at]])
                continue
            R.check(bool(through), "C13:rightHandSide:vector:refused",
                    "HierarchicalIterative::rightHandSide(rhs) refuses a "
                    "right hand side that is zero but on Equality rows",
                    f["file"], f["line"],
                    text="rightHandSide(rhs), Equality rows")
            for s in through:
                got = []
                for i in (0, 1):
                    r = C_.items(s, ("path", ("this", "datas_", (
                        "[]", ("lit", i)), "rightHandSide")))
                    got += list(r) if r is not None else [None]
                if None in got or len(got) != len(flat):
                    R.unclear("%s: value" % f["q"])
                    continue
                R.check(got == v, "C13:rightHandSide:vector:value",
                        "HierarchicalIterative::rightHandSide(rhs) does not "
                        "set the right hand sides given", f["file"],
                        f["line"], ["got %s" % got, "expected %s" % v],
                        text="rightHandSide(rhs): values")


def parameters(R, M):
    """The size of the parameter is not zero as soon as a row may have a
    right hand side."""
    for f in M.methods(IMP, "comparisonType"):
        if f.get("body") is None or not f["ps"]:
            continue
        for comp in COMPS:
            C_ = Own((EZ, EQ), {("arg:" + f["ps"][0]["n"],): comp})
            I = Interp(M, C_)
            st = State()
            st.cl = {("n", ("this", "parameterSize_")): 77}
            try:
                res = I.run(f, V(("this",), cls=IMP), st=st)
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            for kind, s, v in res:
                if kind != "ret":
                    continue
                n = C_.rep(s, ("path", ("this", "parameterSize_")))
                if not isinstance(n, (int, float)):
                    R.unclear("%s: parameter size" % f["q"])
                    continue
                R.check(bool(n) == (EQ in comp), "C13:parameterSize",
                        "the size of the parameter of a constraint of "
                        "comparison types %s is %d" % (
                            [SHORT[c] for c in comp], n), f["file"],
                        f["line"], text="parameter size of %s"
                        % [SHORT[c] for c in comp])
