"""C12: adding a constraint updates all the bookkeeping."""
from ..interp import Interp, NOC, TooBig, V, deps
from ..model import short
from ..solver import BS, ECS, HI
from ..tables import Tables, members, runs, settle
from .c13 import EQ, EZ, IMP, INF, SUP, mentions

ICS = "hpp::constraints::ImplicitConstraintSet"
DFS = "hpp::constraints::DifferentiableFunctionSet"

EXPLAIN = """Case analysis of the functions that add constraints, the content
of tables followed element by element. After each addition every table holds
what it held before and what the new constraint adds to it, at the offset the
new constraint has, configuration and tangent dimensions apart. Functions that
merge add every element that is not there."""


def run(R, M):
    R.rule("after an addition, tables by row hold what they held, followed "
           "by the rows of the new constraint")
    R.rule("offsets of the new constraint are the sizes before it, in "
           "configuration and in tangent coordinates")
    R.rule("dimensions and buffers are computed again after the addition")
    R.rule("merging adds each element with its priority")
    R.assume("tables with one or two constraints stand for any number")
    level_add(R, M)
    update(R, M)
    set_add(R, M)
    functions_add(R, M)
    explicit_add(R, M)
    substitution_add(R, M)
    merges(R, M)


def name(node):
    return (node.get("f") or "").rsplit("::", 1)[-1]


class Book(Tables):
    assume_asserts = False

    def note(self, st, *k):
        st.cl = dict(st.cl)
        st.cl[("ev",) + k[:-1]] = k[-1]

    def seen(self, st, *k):
        return st.cl.get(("ev",) + k)


def go(R, M, C_, f, K):
    I = Interp(M, C_)
    try:
        return [(s, v) for kind, s, v in I.run(f, V(("this",), cls=K))
                if kind == "ret"]
    except TooBig as e:
        R.unclear("%s: %s" % (f["q"], e))
        return []


def where(f):
    return short(f["q"])


def is_eq(c):
    return [j for j, x in enumerate(c) if x == EQ]


def is_ineq(c):
    return [j for j, x in enumerate(c) if x in (SUP, INF)]


# ------------------------------------------------------- hierarchical solver
class Level(Book):
    TRACK = ("datas_", "stacks_", "iq_", "iv_", "comparison_", "priority_",
             "priority", "comparison")
    OLD = ((EQ, SUP, EZ), (INF, EQ))
    NQ, NV = (5, 4, 0), (3, 2, 0)

    def __init__(self, par, comp, prio):
        self.par, self.comp, self.prio = par, comp, prio

    def level(self, st, p):
        p = self.real(st, p)
        if len(p) > 2 and p[:1] == ("this",) and \
                p[1] in ("stacks_", "datas_") and \
                isinstance(p[2], tuple) and p[2][0] == "[]" and len(p[2]) > 1:
            v = self.get(st, p[:2])
            i = self.pos(st, p[2], len(v) if v is not None else None)
            if i is not None:
                return i, p[1], p[3:]
        return None

    def initial(self, st, p):
        if p in (("this", "stacks_"), ("this", "datas_")):
            return (None, None)
        if p == ("this", "constraints_"):
            return (("sym", 0), ("sym", 1))
        if p == (self.par[0], "comparison_"):
            return self.comp
        if len(p) > 3:
            l = self.level(st, p)
            if l and l[1] == "datas_":
                c = self.OLD[l[0]] if l[0] < 2 else ()
                if l[2] == ("comparison",):
                    return c
                if l[2] == ("inequalityIndices",):
                    return tuple(is_ineq(c))
                if l[2] == ("equalityIndices",):
                    return runs(set(is_eq(c)))
        return None

    def quantity(self, st, k):
        if k[0] == "path" and k[1] == (self.par[1],):
            return self.prio
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n in ("nq", "nv", "outputSize", "outputDerivativeSize"):
                q = n in ("nq", "outputSize")
                ds = [self.real(st, p) for p in deps(k)]
                for p in ds:
                    l = self.level(st, p)
                    if l:
                        x = (self.NQ if q else self.NV)[min(l[0], 2)]
                        if self.seen(st, "added") == l[0]:
                            x += len(self.comp) + q
                        return x
                if any(p[0] == self.par[0] for p in ds):
                    return len(self.comp) + q
        return None

    def find(self, key):
        return mentions(key, ("find_if", "operator==", "isEqual", "find",
                              "count", "any_of", "end"))

    def guess(self, I, st, key):
        if not self.find(key):
            Tables.guess(self, I, st, key)

    def rec(self, st, table, key, x):
        if any(p[:1] == (self.par[0],) for p in deps(key)):
            self.note(st, "table", table, x)

    def write(self, I, st, path, node, how, val=None):
        if how in ("=", "init") and path[:1] == ("this",) and \
                len(path) > 1:
            if path[1] in ("iq_", "iv_", "priority_") and len(path) == 3 \
                    and isinstance(path[2], tuple) and len(path[2]) > 1 and \
                    val is not None:
                self.rec(st, path[1], path[2][1], self.rep(st, val.k()))
            if path == ("this", "dimension_"):
                self.note(st, "updated", True)
        Book.write(self, I, st, path, node, how, val)

    def pre_call(self, I, st, node, ov, avs):
        n = name(node)
        p = self.real(st, ov.path) if ov is not None and \
            ov.path is not None else None
        if p is not None and len(p) == 2 and \
                p[1] in ("iq_", "iv_", "priority_") and \
                n in ("insert", "emplace", "insert_or_assign",
                      "try_emplace"):
            a = [x.k() for x in avs]
            if len(a) == 1:
                if a[0][0] == "ctor":
                    a = list(a[0][2])
                elif a[0][0] == "init":
                    a = list(a[0][1])
                elif a[0][0] == "call":
                    a = list(a[0][3])
            if len(a) == 2:
                self.rec(st, p[1], a[0], self.rep(st, a[1]))
            else:
                self.note(st, "table", p[1], None)
            return [(st, V())]
        if p is not None and n == "add" and len(p) == 3 and \
                p[1] == "stacks_":
            l = self.level(st, p)
            good = avs and avs[0].path == (self.par[0],)
            self.note(st, "added", l[0] if l and good else "?")
            self.note(st, "times", (self.seen(st, "times") or 0) + 1)
            self.note(st, "updated", False)
            return [(st, V())]
        if n == "computeActiveRowsOfJ":
            return [(st, V())]
        return Book.pre_call(self, I, st, node, ov, avs)


def level_add(R, M):
    for f in M.methods(HI, "add"):
        if f.get("body") is None or len(f["ps"]) != 2:
            continue
        R.analysed(f)
        par = ["arg:" + p["n"] for p in f["ps"]]
        done = bad = 0
        for comp in ((SUP, EQ, EZ), (EQ, EQ), (EZ, INF, INF, EQ), (EZ,)):
            for prio in (0, 1, 2):
                C_ = Level(par, comp, prio)
                found = []
                for s, v in go(R, M, C_, f, HI):
                    if v is not None and v.const is False:
                        continue
                    done += 1
                    found.append((s, level_state(R, C_, s, f)))
                bad += settle(R, found, f)
        if done and not bad:
            R.ok("%s: %d cases" % (where(f), done))
        elif not done:
            R.unclear(where(f))


def level_state(R, C_, s, f):
    vs = []
    L = C_.prio
    w = where(f)

    def expect(key, got, exp, what):
        if got is None:
            R.unclear("%s: %s" % (w, what))
        elif got != exp:
            vs.append(("C12:HierarchicalIterative::add:" + key,
                       "%s: %s" % (w, what),
                       ["got %s" % (got,), "expected %s" % (exp,)]))

    for t, x in (("iq_", C_.NQ), ("iv_", C_.NV), ("priority_", None)):
        if ("ev", "table", t) not in s.cl:
            vs.append(("C12:HierarchicalIterative::add:%s" % t,
                       "%s leaves no entry for the constraint in %s" % (w, t),
                       None))
            continue
        expect(t, C_.seen(s, "table", t), x[L] if x else L,
               "entry of the constraint in %s" % t)
    n = C_.seen(s, "times") or 0
    if n != 1 or C_.seen(s, "added") != "?":
        expect("stack", (n, C_.seen(s, "added")), (1, L),
               "the constraint is added once to the stack of its priority "
               "level")
    else:
        R.unclear("%s: stack" % w)
    if n and C_.seen(s, "updated") is False:
        vs.append(("C12:HierarchicalIterative::add:update",
                   "%s does not compute dimensions and buffers again after "
                   "the constraint is in the stack" % w, None))
    for t in ("stacks_", "datas_"):
        v = C_.get(s, ("this", t))
        expect(t, None if v is None else len(v), max(2, L + 1),
               "number of priority levels in %s" % t)
    old = C_.OLD[L] if L < 2 else ()
    base = ("this", "datas_", ("[]", ("lit", L)))
    expect("comparison", C_.get(s, base + ("comparison",)), old + C_.comp,
           "comparison types of the level")
    v = C_.rows(s, ("path", base + ("inequalityIndices",)))
    expect("inequalityIndices", v, is_ineq(old + C_.comp),
           "inequality rows of the level")
    v = C_.rows(s, ("path", base + ("equalityIndices",)))
    expect("equalityIndices", None if v is None else sorted(set(v)),
           is_eq(old + C_.comp), "equality rows of the level")
    v = C_.get(s, ("this", "constraints_"))
    expect("constraints_", None if v is None else v[:2] + tuple(
        x if x is None else "new" if x == ("path", (C_.par[0],)) else "other"
        for x in v[2:]), (("sym", 0), ("sym", 1), "new"),
        "list of constraints")
    return vs


# -------------------------------------------------- dimensions and buffers
class Update(Book):
    TRACK = ("datas_", "stacks_", "dimension_", "reducedDimension_")
    NV, NQ, ACT = (5, 3, 2), (7, 4, 3), (4, 2, 1)
    IN, INQ, FREE = 11, 13, 6

    def __init__(self, n):
        self.n = n

    def level(self, st, p):
        p = self.real(st, p)
        if len(p) > 2 and p[0] == "this" and p[1] in ("stacks_", "datas_") \
                and isinstance(p[2], tuple) and p[2][0] == "[]" and \
                len(p[2]) > 1:
            i = self.pos(st, p[2], self.n)
            if i is not None and 0 <= i < self.n:
                return i, p[1], p[3:]
        return None

    def initial(self, st, p):
        if p in (("this", "stacks_"), ("this", "datas_")):
            return (None,) * self.n
        if p == ("this", "freeVariables_"):
            return (("seg", 1, self.FREE),)
        l = self.level(st, p)
        if l and l[2] == ("activeRowsOfJ",):
            return (("seg", 0, 1 + 7 * l[0]),)
        return None

    def quantity(self, st, k):
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n in ("inputSize", "inputDerivativeSize"):
                return self.INQ if n == "inputSize" else self.IN
            if n in ("nq", "nv", "outputSize", "outputDerivativeSize"):
                q = n in ("nq", "outputSize")
                for p in deps(k):
                    p = self.real(st, p)
                    if "configSpace_" in p:
                        return self.INQ if q else self.IN
                    l = self.level(st, p)
                    if l:
                        return (self.NQ if q else self.NV)[l[0]]
        if k[0] == "path" and k[1] in (("this", "dimension_"),
                                       ("this", "reducedDimension_")):
            return st.cl.get(("n", k[1]), 100)
        if k[0] == "path" and k[1][-1] in ("inputSize_",
                                           "inputDerivativeSize_"):
            return self.INQ if k[1][-1] == "inputSize_" else self.IN
        return None

    def choose(self, I, st, key):
        if key[0] in ("truth", "nonnull") and mentions(key, ("stacks_",)):
            return True
        return Book.choose(self, I, st, key)

    def pre_call(self, I, st, node, ov, avs):
        n = name(node)
        if n == "computeActiveRowsOfJ" and avs:
            i = self.rep(st, avs[0].k())
            if isinstance(i, (int, float)):
                self.put(st, ("this", "datas_", ("[]", ("lit", int(i))),
                              "activeRowsOfJ"),
                         (("seg", 0, self.ACT[int(i)]),))
            return [(st, V())]
        if ov is not None and ov.path is not None and n == "resize":
            p = self.real(st, ov.path)
            self.note(st, "size", p, tuple(self.rep(st, a.k())
                                           for a in avs))
        if n == "setNeutral" and ov is not None and ov.path is not None:
            return [(st, V())]
        return Book.pre_call(self, I, st, node, ov, avs)

    def write(self, I, st, path, node, how, val=None):
        if how == "=" and val is not None and path[:1] == ("this",):
            k = val.k()
            while k[0] == "ctor" and len(k[2]) == 1 and k[2][0][0] == "call":
                k = k[2][0]
            a = None
            if k[0] == "call" and k[1].rsplit("::", 1)[-1] in (
                    "Zero", "Constant", "Ones"):
                a = k[3]
            elif k[0] == "ctor" and "Matrix" in k[1]:
                a = k[2]
            p = self.real(st, path)
            if a is not None:
                self.note(st, "size", p, tuple(self.rep(st, x) for x in a))
            elif p[-1] in ("output", "rightHandSide"):
                ls = {l[0] for q in deps(k) for l in [self.level(st, q)]
                      if l}
                self.note(st, "space", p, min(ls) if len(ls) == 1 else None)
        Book.write(self, I, st, path, node, how, val)


def update(R, M):
    for f in M.methods(HI, "update"):
        if f.get("body") is None:
            continue
        R.analysed(f)
        done = bad = 0
        for n in (1, 2, 3):
            C_ = Update(n)
            found = []
            for s, v in go(R, M, C_, f, HI):
                vs = []

                def expect(key, got, exp, what):
                    if got is None or isinstance(got, tuple) and None in got:
                        R.unclear("update: %s" % what)
                    elif got != exp:
                        vs.append(("C12:update:" + key,
                                   "HierarchicalIterative::update: " + what,
                                   ["%d levels" % n, "got %s" % (got,),
                                    "expected %s" % (exp,)]))

                def size(p, exp, what):
                    if ("ev", "size", p) not in s.cl:
                        vs.append(("C12:update:%s" % p[-1],
                                   "HierarchicalIterative::update does not "
                                   "give %s its size" % what, None))
                    else:
                        expect(p[-1], C_.seen(s, "size", p), exp,
                               "size of %s" % what)
                expect("dimension_", C_.rep(s, ("path", (
                    "this", "dimension_"))), sum(C_.NV[:n]), "dimension")
                expect("reducedDimension_", C_.rep(s, ("path", (
                    "this", "reducedDimension_"))), sum(C_.ACT[:n]),
                    "number of active rows")
                size(("this", "dq_"), (C_.IN,), "the step")
                size(("this", "reducedJ_"), (sum(C_.ACT[:n]), C_.FREE),
                     "the reduced Jacobian of all levels")
                for i in range(n):
                    b = ("this", "datas_", ("[]", ("lit", i)))
                    size(b + ("jacobian",), (C_.NV[i], C_.IN),
                         "the Jacobian of a level")
                    for m in ("output", "rightHandSide"):
                        if ("ev", "space", b + (m,)) not in s.cl:
                            vs.append((
                                "C12:update:" + m,
                                "HierarchicalIterative::update does not "
                                "give %s of a level its space" % m, None))
                        else:
                            expect(m, C_.seen(s, "space", b + (m,)), i,
                                   "level whose space %s of a level is in"
                                   % m)
                    if ("ev", "size", b + ("error",)) in s.cl:
                        expect("error", C_.seen(s, "size", b + ("error",)),
                               (C_.NV[i],), "size of the error of a level")
                done += 1
                found.append((s, vs))
            bad += settle(R, found, f)
        if done and not bad:
            R.ok("%s: %d cases" % (where(f), done))
        elif not done:
            R.unclear(where(f))


# ------------------------------------------------- sets of implicit constraints
class Set(Book):
    TRACK = ("comparison_", "mask_", "activeRows_", "inactiveRows_",
             "equalityIndices_", "inequalityIndices_", "parameterSize_")
    OLD = (EQ, SUP, EZ)
    OLDM = (True, False, True)
    NQ, NV = 5, 3

    def __init__(self, par, comp, mask):
        self.par, self.comp, self.mask = par, comp, mask

    def initial(self, st, p):
        n = len(self.OLD)
        t = {"comparison_": self.OLD, "mask_": self.OLDM,
             "constraints_": (("sym", 0),),
             "activeRows_": (("seg", 7, 1),), "inactiveRows_":
             (("seg", 8, 1),), "equalityIndices_": (("seg", 9, 1),),
             "inequalityIndices_": (10,), "rhs_": (0.,) * self.NQ,
             "logOutput_": (0.,) * n}
        if len(p) == 2 and p[0] == "this" and p[1] in t:
            return t[p[1]]
        if p == (self.par, "comparison_"):
            return self.comp
        if p == (self.par, "mask_"):
            return self.mask
        return None

    def quantity(self, st, k):
        if k[0] == "path":
            if k[1] == ("this", "parameterSize_"):
                return st.cl.get(("n", k[1]), len(is_eq(self.OLD)))
            if k[1] == (self.par, "parameterSize_"):
                return len(is_eq(self.comp))
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n in ("parameterSize", "rightHandSideSize"):
                return len(is_eq(self.comp)) if any(
                    p[0] == self.par for p in deps(k)) else None
            if n in ("nq", "nv", "outputSize", "outputDerivativeSize"):
                q = n in ("nq", "outputSize")
                if any(p[0] == self.par for p in deps(k)):
                    return len(self.comp) + 2 * q
                if any(p[:1] == ("this",) for p in deps(k)):
                    x = self.NQ if q else self.NV
                    if self.seen(st, "added"):
                        x += len(self.comp) + 2 * q
                    return x
        return None

    def choose(self, I, st, key):
        if key[0] in ("truth", "nonnull") and mentions(key, ("function_",)):
            return True
        return Book.choose(self, I, st, key)

    def pre_call(self, I, st, node, ov, avs):
        n = name(node)
        if n == "add" and ov is not None and ov.path is not None and \
                "function_" in ov.path:
            self.note(st, "added", True)
            self.note(st, "times", (self.seen(st, "times") or 0) + 1)
            self.note(st, "what", bool(avs) and avs[0].path is not None and
                      avs[0].path[:1] == (self.par,))
            return [(st, V())]
        if n == "shrink" and len(avs) == 1 and avs[0].path is not None:
            v = self.items(st, ("path", avs[0].path))
            m = members(v) if v is not None else None
            if m is not None:
                self.put(st, avs[0].path, runs(set(m)))
                return [(st, V())]
        return Book.pre_call(self, I, st, node, ov, avs)

    def write(self, I, st, path, node, how, val=None):
        if how == "=" and path == ("this", "output_") and val is not None:
            self.note(st, "output", bool(self.seen(st, "added")))
        Book.write(self, I, st, path, node, how, val)
        if path == ("this", "parameterSize_") and how in ("+=", "=") and \
                val is not None:
            x = self.rep(st, val.k())
            if how == "+=" and isinstance(x, (int, float)):
                st.cl = dict(st.cl)
                st.cl[("n", path)] = len(is_eq(self.OLD)) + x


def set_add(R, M):
    for f in M.methods(ICS, "add"):
        if f.get("body") is None or len(f["ps"]) != 1:
            continue
        R.analysed(f)
        par = "arg:" + f["ps"][0]["n"]
        done = bad = 0
        for comp, mask in (((EQ, EZ, INF, EQ), (True, False, False, True)),
                           ((EZ, SUP), (True, True)), ((EQ,), (False,))):
            C_ = Set(par, comp, mask)
            found = []
            for s, v in go(R, M, C_, f, ICS):
                vs = []
                w = where(f)

                def expect(key, got, exp, what):
                    if got is None:
                        R.unclear("%s: %s" % (w, what))
                    elif got != exp:
                        vs.append(("C12:%s:%s" % (w, key),
                                   "%s: %s" % (w, what),
                                   ["got %s" % (got,),
                                    "expected %s" % (exp,)]))

                def rows(t):
                    v = C_.rows(s, ("path", ("this", t)))
                    return None if v is None else sorted(set(v))

                def length(t):
                    v = C_.get(s, ("this", t))
                    return None if v is None else len(v)
                allc, allm = C_.OLD + comp, C_.OLDM + mask
                expect("function", (C_.seen(s, "times") or 0,
                                    C_.seen(s, "what")), (1, True),
                       "the function of the constraint is added once")
                expect("comparison_", C_.get(s, ("this", "comparison_")),
                       allc, "comparison types")
                expect("mask_", C_.get(s, ("this", "mask_")), allm, "mask")
                expect("activeRows_", rows("activeRows_"),
                       [i for i, b in enumerate(allm) if b], "active rows")
                expect("inactiveRows_", rows("inactiveRows_"),
                       [i for i, b in enumerate(allm) if not b],
                       "inactive rows")
                expect("equalityIndices_", rows("equalityIndices_"),
                       is_eq(allc), "equality rows")
                expect("inequalityIndices_", rows("inequalityIndices_"),
                       is_ineq(allc), "inequality rows")
                expect("parameterSize_", C_.rep(s, ("path", (
                    "this", "parameterSize_"))), len(is_eq(allc)),
                    "number of parameters")
                expect("rhs_", length("rhs_"), C_.NQ + len(comp) + 2,
                       "size of the right hand side")
                expect("logOutput_", length("logOutput_"),
                       C_.NV + len(comp), "size of the logarithm")
                if C_.seen(s, "output") is None:
                    vs.append(("C12:%s:output_" % w, "%s leaves output_ in "
                               "the space before the addition" % w, None))
                v = C_.get(s, ("this", "constraints_"))
                expect("constraints_", None if v is None else tuple(
                    "new" if x == ("path", (par,)) else x for x in v),
                    (("sym", 0), "new"), "list of constraints")
                done += 1
                found.append((s, vs))
            bad += settle(R, found, f)
        if done and not bad:
            R.ok("%s: %d cases" % (where(f), done))
        elif not done:
            R.unclear(where(f))


# ---------------------------------------------------------- sets of functions
class Functions(Book):
    TRACK = ("functions_", "result_")

    def __init__(self, par, n):
        self.par, self.n = par, n

    def initial(self, st, p):
        if p in (("this", "functions_"), ("this", "result_")):
            return (("sym", 0), ("sym", 1))[:self.n]
        return None

    def pre_call(self, I, st, node, ov, avs):
        n = name(node)
        p = ov.path if ov is not None else None
        if p is not None and n in ("push_back", "emplace_back") and \
                p == ("this", "result_") and avs:
            ds = deps(avs[0].k())
            self.note(st, "result", any(
                q[0] == self.par and q[1:] == ("outputSpace_",) for q in ds))
        return Book.pre_call(self, I, st, node, ov, avs)

    def write(self, I, st, path, node, how, val=None):
        if path == ("this", "outputSpace_"):
            ds = deps(val.k()) if val is not None else ()
            good = how == "*=" and (self.par, "outputSpace_") in ds
            if how == "=" and (self.par, "outputSpace_") in ds and \
                    (path in ds or not self.n):
                good = True
            self.note(st, "space", (self.seen(st, "space") or ()) + (good,))
        if how == "=" and path in (("this", "inputSize_"),
                                   ("this", "inputDerivativeSize_")):
            self.note(st, path[1], val.k() if val is not None else None)
        Book.write(self, I, st, path, node, how, val)


def functions_add(R, M):
    for f in M.methods(DFS, "add"):
        if f.get("body") is None or len(f["ps"]) != 1:
            continue
        R.analysed(f)
        par = "arg:" + f["ps"][0]["n"]
        done = bad = 0
        w = where(f)
        for n in (0, 1, 2):
            C_ = Functions(par, n)
            found = []
            for s, v in go(R, M, C_, f, DFS):
                vs = []

                def bad_(key, msg):
                    vs.append(("C12:%s:%s" % (w, key), "%s: %s" % (w, msg),
                               ["%d functions before" % n]))
                v = C_.get(s, ("this", "functions_"))
                if v is None:
                    R.unclear("%s: functions" % w)
                elif v[:n] != (("sym", 0), ("sym", 1))[:n] or \
                        v[n:] != (("path", (par,)),):
                    bad_("functions_", "the function is not added once, after"
                         " the others")
                v = C_.get(s, ("this", "result_"))
                if v is None:
                    R.unclear("%s: results" % w)
                elif len(v) != n + 1 or v[:n] != (("sym", 0),
                                                  ("sym", 1))[:n]:
                    bad_("result_", "one result buffer is not added after "
                         "the others")
                elif C_.seen(s, "result") is False:
                    bad_("result_", "the result buffer is not in the output "
                         "space of the function")
                sp = C_.seen(s, "space")
                if sp != (True,):
                    bad_("outputSpace_", "the output space is not "
                         "multiplied once by the one of the function")
                for m in ("inputSize_", "inputDerivativeSize_"):
                    k = C_.seen(s, m)
                    if n == 0 and k is None:
                        bad_(m, "%s is not the one of the first function"
                             % m)
                    elif k is not None and k[0] == "path" and \
                            k[1][0] == par and k[1][1:] != (m,):
                        bad_(m, "%s is given %s of the function" % (
                            m, k[1][-1]))
                done += 1
                found.append((s, vs))
            bad += settle(R, found, f)
        if done and not bad:
            R.ok("%s: %d cases" % (w, done))
        elif not done:
            R.unclear(w)


# ---------------------------------------------------------- explicit constraints
CONF = {"in": ((0, 2), (7, 1)), "out": ((4, 2),)}
VEL = {"in": ((0, 2), (6, 1)), "out": ((3, 2),)}


def segs(t):
    return tuple(("seg",) + x for x in t)


class Explicits(Book):
    TRACK = ("data_", "argFunction_", "derFunction_", "outArgs_", "inArgs_",
             "outDers_", "inDers_", "notOutArgs_", "notOutDers_")
    NQ, NV = 9, 8
    # one constraint: 7 .. 8 from 2 in configuration, 6 .. 7 from 1
    OLD = {"argFunction_": (-1,) * 7 + (0, -1),
           "derFunction_": (-1,) * 6 + (0, -1),
           "outArgs_": (("seg", 7, 1),), "outDers_": (("seg", 6, 1),),
           "notOutArgs_": (("seg", 0, 7), ("seg", 8, 1)),
           "notOutDers_": (("seg", 0, 6), ("seg", 7, 1)),
           "inArgs_": (("seg", 2, 1), ("seg", 4, 1)),
           "inDers_": (("seg", 1, 1), ("seg", 3, 1)),
           "data_": (("sym", 0),), "computationOrder_": (0,)}

    def __init__(self, par):
        self.par = par

    def initial(self, st, p):
        if len(p) == 2 and p[0] == "this" and p[1] in self.OLD:
            return self.OLD[p[1]]
        t = {"inputConf_": CONF["in"], "outputConf_": CONF["out"],
             "inputVelocity_": VEL["in"], "outputVelocity_": VEL["out"],
             }
        if len(p) == 2 and p[0] == self.par:
            if p[1] in t:
                return segs(t[p[1]])
            if p[1] == "comparison_":
                return (EQ, EZ)
        return None

    def quantity(self, st, k):
        if k[0] == "path" and k[1] == ("this", "errorSize_"):
            return st.cl.get(("n", k[1]), 5)
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n in ("nq", "nv", "outputSize", "outputDerivativeSize"):
                q = n in ("nq", "outputSize")
                ds = deps(k)
                if any("configSpace_" in p for p in ds):
                    return self.NQ if q else self.NV
                for p in ds:
                    p = self.real(st, p)
                    if p[0] == self.par or p[:2] == ("this", "data_") or \
                            "rhs_implicit" in p:
                        h = not any("explicit" in str(x).lower() for x in p)
                        return (4 if h else 3) if q else 2
        return None

    def special(self, st, k):
        if k[0] == "call" and k[1].endswith("BlockIndex::difference") and \
                len(k[3]) == 2:
            a, b = [self.segments(st, x) for x in k[3]]
            if a is None or b is None:
                return None
            return runs(set(a) - set(b))
        return None

    def segments(self, st, k):
        x = self.item(st, k) if k[0] in ("ctor", "init", "call", "path") \
            else None
        if isinstance(x, tuple) and x[:1] == ("seg",):
            return members((x,))
        return self.rows(st, k)

    def decided(self, I, st, key, value):
        # before anything is changed: tests on whether to add
        if self.seen(st, "begun"):
            Tables.decided(self, I, st, key, value)

    def unknown_loop(self, I, st, base, s):
        if self.seen(st, "begun"):
            Tables.unknown_loop(self, I, st, base, s)

    def choose(self, I, st, key):
        if mentions(key, ("overlap",)):
            return False
        return Book.choose(self, I, st, key)

    def pre_call(self, I, st, node, ov, avs):
        n = name(node)
        p = ov.path if ov is not None else None
        if n == "append" and len(avs) == 2:
            return [(st, V())]
        if n == "Data" and not (p or ())[1:]:
            return [(st, V())]
        if n == "computeOrder" and avs:
            self.note(st, "order", (self.seen(st, "order") or ()) +
                      (self.rep(st, avs[0].k()),))
            if not self.seen(st, "ready"):
                v = self.get(st, ("this", "computationOrder_"))
                self.note(st, "ready", (
                    None if v is None else len(v),
                    self.seen(st, "dependencies")))
            return [(st, V())]
        if n == "add" and (node.get("f") or "").endswith(
                "BlockIndex::add") and len(avs) == 2 and \
                avs[0].path is not None:
            a = self.rows(st, ("path", avs[0].path))
            b = self.segments(st, avs[1].k())
            self.begin(st)
            self.put(st, avs[0].path,
                     None if a is None or b is None else
                     runs(set(a) | set(b)))
            return [(st, V())]
        if p is not None and p[:2] == ("this", "data_") and len(p) == 2 and \
                n in ("push_back", "emplace_back") and avs:
            self.begin(st)
            self.note(st, "pushed", any(q[0] == self.par
                                        for q in deps(avs[0].k())) or None)
            v = self.get(st, p)
            if v is not None:
                self.put(st, p, v + (("new",),))
            return [(st, V())]
        return Book.pre_call(self, I, st, node, ov, avs)

    def begin(self, st):
        self.note(st, "begun", True)

    def write(self, I, st, path, node, how, val=None):
        if path[:1] == ("this",):
            self.begin(st)
        if path == ("this", "inOutDependencies_") and how == "=" and \
                val is not None:
            k = val.k()
            while k[0] == "ctor" and len(k[2]) == 1:
                k = k[2][0]
            if k[0] == "call" and k[1].endswith("Zero"):
                self.note(st, "dependencies",
                          tuple(self.rep(st, x) for x in k[3]))
            else:
                self.note(st, "dependencies", None)
        Book.write(self, I, st, path, node, how, val)
        if path == ("this", "errorSize_") and how == "+=" and \
                val is not None:
            x = self.rep(st, val.k())
            st.cl = dict(st.cl)
            st.cl[("n", path)] = 5 + x if isinstance(x, (int, float)) \
                else None


def explicit_add(R, M):
    for f in M.methods(ECS, "add"):
        if f.get("body") is None or len(f["ps"]) != 1:
            continue
        R.analysed(f)
        C_ = Explicits("arg:" + f["ps"][0]["n"])
        w = where(f)
        found, done = [], 0
        for s, v in go(R, M, C_, f, ECS):
            r = C_.rep(s, v.k()) if v is not None else None
            if not C_.seen(s, "begun"):
                continue
            vs = []

            def expect(key, got, exp, what):
                if got is None or isinstance(got, tuple) and None in got:
                    R.unclear("%s: %s" % (w, what))
                elif got != exp:
                    vs.append(("C12:%s:%s" % (w, key),
                               "%s: %s" % (w, what),
                               ["got %s" % (got,), "expected %s" % (exp,)]))

            def rows(t):
                v = C_.rows(s, ("path", ("this", t)))
                return None if v is None else sorted(set(v))

            out = set(members(segs(CONF["out"]))) | {7}
            outd = set(members(segs(VEL["out"]))) | {6}
            inn = (set(members(segs(CONF["in"]))) | {2, 4}) - out
            ind = (set(members(segs(VEL["in"]))) | {1, 3}) - outd
            expect("index", r, 1, "index returned")
            d = C_.get(s, ("this", "data_"))
            expect("data_", None if d is None else len(d), 2,
                   "number of explicit constraints")
            expect("errorSize_", C_.rep(s, ("path", ("this",
                                                     "errorSize_"))), 7,
                   "size of the error")
            for t, o, sz in (("argFunction_", CONF["out"], C_.NQ),
                             ("derFunction_", VEL["out"], C_.NV)):
                exp = list(C_.OLD[t])
                for i in members(segs(o)):
                    exp[i] = 1
                expect(t, C_.get(s, ("this", t)), tuple(exp),
                       "which constraint computes each component")
            for t, e in (("outArgs_", out), ("outDers_", outd),
                         ("notOutArgs_", set(range(C_.NQ)) - out),
                         ("notOutDers_", set(range(C_.NV)) - outd),
                         ("inArgs_", inn), ("inDers_", ind)):
                expect(t, rows(t), sorted(e), "set of indices " + t)
            o = C_.seen(s, "order")
            expect("order", None if o is None else tuple(sorted(set(o))),
                   (0, 1), "constraints whose rank is computed")
            rd = C_.seen(s, "ready")
            if rd:
                expect("computationOrder_", rd[0], 2,
                       "size of the computation order")
                if rd[1] is None:
                    R.unclear("%s: dependencies" % w)
                else:
                    expect("inOutDependencies_", rd[1], (2, C_.NV),
                           "size of the dependencies")
            elif o is None:
                vs.append(("C12:%s:order" % w, "%s does not compute the "
                           "computation order again" % w, None))
            done += 1
            found.append((s, vs))
        if done and not settle(R, found, f):
            R.ok("%s: %d paths" % (w, done))
        elif not done:
            R.unclear(w)


# ------------------------------------------------- solver by substitution
class Substitution(Book):
    TRACK = ("constraints_",)

    def __init__(self, par, has, is_explicit, index):
        self.par, self.has, self.ex, self.i = par, has, is_explicit, index

    def initial(self, st, p):
        if p == ("this", "constraints_"):
            return (("sym", 0),)
        if len(p) == 3 and p[:2] == ("this", "explicit_"):
            return {"notOutDers_": (("seg", 11, 3),),
                    "notOutArgs_": (("seg", 21, 3),),
                    "outDers_": (("seg", 31, 3),),
                    "outArgs_": (("seg", 41, 3),),
                    "inDers_": (("seg", 51, 3),),
                    "inArgs_": (("seg", 61, 3),)}.get(p[2])
        return None

    def free(self, st, k):
        v = self.rows(st, k)
        self.note(st, "free", "?" if v is None else v == [11, 12, 13] or
                  "other")

    def guess(self, I, st, key):
        pass

    def choose(self, I, st, key):
        if key[0] in ("truth", "nonnull") and \
                mentions(key, (self.par[0],)) and not (
                    key[1][0] == "call" and "cast" not in key[1][1]):
            return self.ex
        return Book.choose(self, I, st, key)

    def pre_call(self, I, st, node, ov, avs):
        q = node.get("f") or ""
        n = name(node)
        if n == "contains":
            return [(st, V(const=self.has))]
        if q == HI + "::add":
            self.note(st, "hi", (self.seen(st, "hi") or ()) + ((
                bool(avs) and avs[0].path is not None and
                avs[0].path[:1] == (self.par[0],),
                len(avs) > 1 and (self.par[1],) in deps(avs[1].k())),))
            return [(st, V(const=True))]
        if q == ECS + "::add":
            self.note(st, "ex", True)
            self.note(st, "free", False)
            return [(st, V(const=self.i))]
        if n == "transpose" and ov is not None and ov.path is not None:
            return [(st, V(ov.path))]
        if n == "freeVariables" and avs:
            self.free(st, avs[0].k())
            return [(st, V())]
        return Book.pre_call(self, I, st, node, ov, avs)

    def write(self, I, st, path, node, how, val=None):
        if path[:2] == ("this", "freeVariables_") and val is not None:
            self.free(st, val.k())
        Book.write(self, I, st, path, node, how, val)


def substitution_add(R, M):
    for f in M.methods(BS, "add"):
        if f.get("body") is None or len(f["ps"]) != 2:
            continue
        R.analysed(f)
        par = ["arg:" + p["n"] for p in f["ps"]]
        w = where(f)
        done = bad = 0
        for has, ex, i in ((True, True, 0), (True, False, -1),
                           (False, True, 0), (False, True, 3),
                           (False, True, -1), (False, False, -1)):
            C_ = Substitution(par, has, ex, i)
            found = []
            for s, v in go(R, M, C_, f, BS):
                vs = []

                def bad_(key, msg):
                    vs.append(("C12:%s:%s" % (w, key), "%s: %s" % (w, msg),
                               None))
                hi = C_.seen(s, "hi") or ()
                c = C_.get(s, ("this", "constraints_"))
                if c is None:
                    R.unclear("%s: constraints" % w)
                    continue
                added = ex and i >= 0
                if has:
                    if hi or C_.seen(s, "ex") or len(c) != 1:
                        bad_("again", "a constraint that is there is added "
                             "again")
                elif ex and not C_.seen(s, "ex"):
                    bad_("explicit", "an explicit constraint is not given to "
                         "the set of explicit constraints")
                elif added:
                    if hi:
                        bad_("twice", "a constraint solved explicitly is "
                             "also added as implicit")
                    if len(c) != 2:
                        bad_("constraints_", "a constraint solved explicitly "
                             "is not in the list of constraints once")
                    free = C_.seen(s, "free")
                    if free == "?":
                        R.unclear("%s: free variables" % w)
                    elif free == "other":
                        bad_("free", "free variables are not those that the "
                             "explicit constraints leave")
                    elif not free:
                        bad_("free", "free variables are not computed again "
                             "after an explicit constraint is added")
                else:
                    if len(hi) != 1:
                        bad_("implicit", "a constraint that is not solved "
                             "explicitly is not added as implicit once")
                    elif hi[0] != (True, True):
                        bad_("priority", "the constraint is added as "
                             "implicit with another priority")
                    if len(c) != 1:
                        bad_("constraints_", "the constraint is in the list "
                             "of constraints twice")
                if v is not None and v.const is has:
                    bad_("result", "returns %s for a constraint that is %s"
                         % (str(has).lower(), "there" if has else "added"))
                done += 1
                found.append((s, vs))
            bad += settle(R, found, f)
        if done and not bad:
            R.ok("%s: %d cases" % (w, done))
        elif not done:
            R.unclear(w)


# ------------------------------------------------------------------- merging
class Merge(Book):
    TRACK = ()

    def __init__(self, par, table):
        self.par, self.table = par, table

    def initial(self, st, p):
        if p == (self.par, self.table):
            return (("sym", 0), ("sym", 1))
        return None

    def pre_call(self, I, st, node, ov, avs):
        n = name(node)
        if n == "contains" and avs and avs[0].path is not None and \
                ov is not None and ov.path == ("this",):
            p = self.real(st, avs[0].path)
            out = []
            for b in (True, False):
                t = st.copy()
                self.late(t)
                if not b:
                    self.note(t, "pending", p)
                else:
                    ps = self.seen(t, "there") or ()
                    if p not in ps:
                        self.note(t, "there", ps + (p,))
                out.append((t, V(const=b)))
            return out
        if n == "add" and avs and ov is not None and ov.path == ("this",):
            p = self.real(st, avs[0].path) if avs[0].path is not None \
                else None
            pr = None
            if len(avs) > 1:
                pr = self.rep(st, avs[1].k())
                pr = pr if pr is not None else "own" if any(
                    q[:2] == (self.par, "priority_") and q[-1] == "second"
                    for q in deps(avs[1].k())) else "?"
            ps = self.seen(st, "adds") or ()
            if (p, pr) not in ps:
                self.note(st, "adds", ps + ((p, pr),))
            if p == self.seen(st, "pending"):
                self.note(st, "pending", None)
            return [(st, V(const=True))]
        return Book.pre_call(self, I, st, node, ov, avs)

    def on_body(self, I, st, s):
        self.note(st, "in", True)

    def on_next(self, I, st, s):
        self.note(st, "in", False)

    def late(self, t):
        if self.seen(t, "pending"):
            self.note(t, "lost", True)


def merges(R, M):
    for K, table in ((HI, "constraints_"), (ICS, "constraints_"),
                     (DFS, "functions_")):
        for f in M.methods(K, "merge"):
            if f.get("body") is None or len(f["ps"]) != 1:
                continue
            R.analysed(f)
            par = "arg:" + f["ps"][0]["n"]
            C_ = Merge(par, table)
            w = where(f)
            found = []
            some = set()
            for s, v in go(R, M, C_, f, K):
                vs = []
                adds = C_.seen(s, "adds") or ()
                if C_.seen(s, "pending") or C_.seen(s, "lost"):
                    vs.append(("C12:%s:lost" % w, "%s does not add an element"
                               " that is not there" % w, None))
                there = C_.seen(s, "there") or ()
                if C_.seen(s, "in"):
                    vs.append(("C12:%s:early" % w, "%s stops before the last "
                               "element" % w, None))
                for p, pr in adds:
                    some.add(pr)
                    if p is None or p[:2] != (par, table):
                        vs.append(("C12:%s:other" % w, "%s adds something "
                                   "else" % w, ["%s" % (p,)]))
                    elif p in there and len(p) > 2 and p[2] != ("[]",) and \
                            p[2] != "[]":
                        vs.append(("C12:%s:there" % w, "%s adds an element "
                                   "that is there" % w, None))
                    if K == HI and pr not in (0, "own", None, "?"):
                        vs.append(("C12:%s:priority" % w, "%s adds a "
                                   "constraint at level %s instead of its "
                                   "own" % (w, pr), None))
                found.append((s, vs))
            if found and not some:
                R.bad("C12:%s:none" % w, "%s adds nothing" % w, f["file"],
                      f["line"])
            elif K == HI and found and "own" not in some:
                R.bad("C12:%s:priority" % w, "%s never uses the priority the "
                      "constraint has in the other solver" % w, f["file"],
                      f["line"])
            elif found and not settle(R, found, f):
                R.ok("%s: %d paths" % (w, len(found)))
            elif not found:
                R.unclear(w)
