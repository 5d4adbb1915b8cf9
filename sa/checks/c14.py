"""C14: masked rows never contribute."""
from ..interp import NOC, Interp, TooBig, V, deps
from ..model import short
from ..solver import BS, ECS, HI
from ..tables import Tables, members, runs, settle
from . import c13
from .c13 import EQ, IMP, INF, SUP, EZ, Rows

EXPLAIN = """Case analysis of the functions that compute errors, Jacobians and
satisfaction tests, with vectors followed row by row. The case fixes which rows
are masked and gives those rows errors that would decide. Masked rows must be
zero in the errors and absent from the reduced Jacobians and from the right
hand sides of the linear systems solved, every other row must be there with its
own value, for lists of active rows computed from masks, stacks of constraints
and sets of explicit constraints alike."""

INACT = (((1,), (0, 3)), ((0, 2, 4), (1,)), ((), (2,)))
COMP = ((EQ, SUP, EZ, INF, SUP), (INF, EQ, INF, EZ))
SETN = ("activeRows_", "inactiveRows_", "mask_")


def run(R, M):
    R.rule("errors are zero on masked rows and hold the error of each other "
           "row")
    R.rule("reduced Jacobians have the active rows, and those only")
    R.rule("satisfaction tests do not depend on masked rows, and depend on "
           "each other row")
    R.rule("lists of active rows follow the masks, shifted by the rows of the "
           "constraints before")
    R.assume("two levels, two constraints each, stand for any number")
    c13.values(R, M, "C14", INACT)
    c13.single(R, M, "C14", ((1,), (0, 2)))
    satisfied(R, M)
    explicit(R, M)
    masks(R, M)
    stacked(R, M)
    descent(R, M)


# --------------------------------------------------------- satisfaction tests
class Stacks(Rows):
    """Levels of two constraints each."""
    SIZES = ((2, 3), (3, 1))
    TRACK = Rows.TRACK + ("squaredNorm_", "data_")

    def __init__(self, raw, inactive, xraw=None, xina=None):
        Rows.__init__(self, ((EQ,) * 5, (EQ,) * 4), raw, inactive)
        self.xraw, self.xina = xraw, xina
        self.thr = None

    def place(self, st, p):
        """Level, position of a constraint, rest of the path."""
        l = self.level(self.real(st, p))
        if l and l[1] == "stacks_" and len(l[2]) > 1 and \
                l[2][0] == "constraints_":
            j = self.pos(st, l[2][1], 2) if isinstance(l[2][1], tuple) and \
                l[2][1][0] == "[]" and len(l[2][1]) > 1 else None
            if j in (0, 1):
                return l[0], j, l[2][2:]
        return None

    def explicit(self, st, p):
        p = self.real(st, p)
        if self.K != ECS:
            if p[:2] != ("this", "explicit_"):
                return None
            p = ("this",) + p[2:]
        if len(p) > 2 and p[:2] == ("this", "data_") and \
                isinstance(p[2], tuple) and p[2][0] == "[]" and len(p[2]) > 1:
            j = self.pos(st, p[2], 2)
            if j in (0, 1):
                return j, p[3:]
        return None

    K = HI

    def initial(self, st, p):
        l = self.level(p)
        if l and l[1] == "stacks_" and l[2] == ("constraints_",):
            return (None, None)
        if self.K == ECS and p == ("this", "data_") or \
                p == ("this", "explicit_", "data_"):
            return (None, None)
        x = self.explicit(st, p)
        if x and self.xraw:
            if x[1] == ("constraint", "inactiveRows_"):
                return runs(set(self.xina[x[0]]))
            if x[1] == ("constraint", "activeRows_"):
                return runs(set(range(len(self.xraw[x[0]]))) -
                            set(self.xina[x[0]]))
            if x[1] == ("constraint", "mask_"):
                return tuple(r not in self.xina[x[0]]
                             for r in range(len(self.xraw[x[0]])))
        if p == ("this", "diffSmall_") or p == ("this", "explicit_",
                                                "diffSmall_"):
            n = sum(len(x) for x in self.xraw) if self.xraw else 0
            return tuple(("stale", j) for j in range(n))
        if p == ("arg:error",):
            n = sum(len(x) for x in self.xraw) if self.xraw else 0
            if self.K != ECS:
                n += sum(len(c) for c in self.comp)
            return tuple(("stale", j) for j in range(n))
        return Rows.initial(self, st, p)

    def quantity(self, st, k):
        if k[0] == "path":
            p = k[1]
            if p[-1] in ("squaredErrorThreshold_",):
                return 4.
            if p[-1] == "errorThreshold_" or p == ("arg:errorThreshold",):
                return 2.
            if p[-1] == "errorSize_" and self.xraw:
                return sum(len(x) for x in self.xraw)
            if p == ("this", "lastIsOptional_"):
                return False
            if p == ("this", "dimension_"):
                return sum(len(c) for c in self.comp)
        if k[0] == "call" and k[2] and k[2][0] == "path":
            n = k[1].rsplit("::", 1)[-1]
            if n in ("nv", "nq", "outputDerivativeSize", "outputSize"):
                c = self.place(st, k[2][1])
                if c:
                    return self.SIZES[c[0]][c[1]] + (n in ("nq",
                                                           "outputSize"))
                x = self.explicit(st, k[2][1])
                if x and self.xraw and "h_value" not in x[1]:
                    return len(self.xraw[x[0]]) + (n in ("nq", "outputSize"))
        return Rows.quantity(self, st, k)

    one = None

    def guess(self, I, st, key):
        # which explicit constraint is looked for
        if self.one is not None and any(
                isinstance(p[0], str) and p[0].startswith("arg:")
                for p in deps(key)):
            return
        Tables.guess(self, I, st, key)

    def difference(self, st, a, b):
        x, y = self.explicit(st, a), self.explicit(st, b)
        if x and y and x[0] == y[0] and self.xraw and \
                {x[1][:1], y[1][:1]} == {("h_value",), ("rhs_implicit",)}:
            return self.xraw[x[0]]
        return Rows.difference(self, st, a, b)


def truth(C_, s, v):
    if not isinstance(v, V):
        return None
    if v.const is not NOC and isinstance(v.const, bool):
        return v.const
    r = C_.rep(s, v.k())
    return r if isinstance(r, bool) else None


def satisfied(R, M):
    """Whole tests, one row with an error that decides."""
    for K in (HI, BS):
        for f in M.methods(K, "isSatisfied"):
            if f.get("body") is None:
                continue
            R.analysed(f)
            cases = []
            for lev, row in ((0, 1), (0, 4), (1, 2), (1, 3)):
                for masked in (True, False):
                    cases.append((lev, row, masked))
            if K == BS:
                for j, row in ((0, 1), (1, 0)):
                    for masked in (True, False):
                        cases.append(("x%d" % j, row, masked))
            done = 0
            bad = False
            for lev, row, masked in cases:
                raw = [[.1] * 5, [.1] * 4]
                ina = [set(), set()]
                xraw, xina = [[.1] * 3, [.1] * 2], [set(), set()]
                if isinstance(lev, int):
                    raw[lev][row] = 7.
                    if masked:
                        ina[lev] = {row}
                else:
                    xraw[int(lev[1])][row] = 7.
                    if masked:
                        xina[int(lev[1])] = {row}
                C_ = Stacks(tuple(map(tuple, raw)), ina, xraw, xina)
                C_.K = K
                I = Interp(M, C_)
                try:
                    res = I.run(f, V(("this",), cls=K))
                except TooBig as e:
                    R.unclear("%s: %s" % (f["q"], e))
                    continue
                found, some = [], False
                for kind, s, v in res:
                    b = truth(C_, s, v) if kind == "ret" else None
                    if b is None:
                        continue
                    some = True
                    found.append((s, [] if b == masked else [(
                        "C14:%s:%s:%s" % (short(K), short(f["q"]),
                                          "masked" if masked else "active"),
                        "%s::%s %s" % (
                            short(K), short(f["q"]),
                            "fails because of the error of a masked row"
                            if masked else
                            "holds in spite of the error of an active row"),
                        ["row %d of %s" % (row, "level %d" % lev
                                           if isinstance(lev, int) else
                                           "explicit constraint " + lev[1])])
                    ]))
                done += some
                bad |= settle(R, found, f)
            if done and not bad:
                R.ok("%s::%s(%s): %d cases" % (
                    short(K), short(f["q"]), ", ".join(
                        p["n"] for p in f["ps"]), done))
            if done < len(cases):
                R.unclear("%s: %d cases of %d" % (f["q"], done, len(cases)))


def explicit(R, M):
    for name in ("isSatisfied", "isConstraintSatisfied"):
        for f in M.methods(ECS, name):
            if f.get("body") is None:
                continue
            R.analysed(f)
            ps = [p["n"] for p in f["ps"]]
            one = name == "isConstraintSatisfied"
            has = "error" in ps
            done, bad = 0, False
            for ina in (((1,), (0,)), ((), (1,)), ((0, 2), ())):
                for hot in ("masked", "active"):
                    x = [[.1, .2, .3], [.4, .5]]
                    for j in (0, 1):
                        for r in ina[j]:
                            x[j][r] = 7.
                    if hot == "active":
                        x[1][1 - (ina[1][0] if ina[1] else 0)] = 9.
                    C_ = Stacks(((0.,) * 5, (0.,) * 4), ((), ()), x, ina)
                    C_.K = ECS
                    if one:
                        C_.one = 1
                    I = Interp(M, C_)
                    try:
                        res = I.run(f, V(("this",), cls=ECS))
                    except TooBig as e:
                        R.unclear("%s: %s" % (f["q"], e))
                        continue
                    found = []
                    for kind, s, v in res:
                        if kind != "ret":
                            continue
                        vs = []
                        p = ("arg:error",) if has else ("this", "diffSmall_")
                        e = C_.get(s, p)
                        want = [0 if r in ina[j] else y
                                for j in (0, 1) for r, y in enumerate(x[j])]
                        if one:
                            if e is None:
                                continue
                            if all(isinstance(y, tuple) for y in e):
                                continue
                            ws = ([0 if r in ina[j] else y for r, y in
                                   enumerate(x[j])] for j in (0, 1))
                            want = next((w for w in ws
                                         if len(w) == len(e)), None)
                            if want is None:
                                R.unclear(f["q"])
                                continue
                        if e is None or None in e or len(e) != len(want):
                            R.unclear("%s: error" % f["q"])
                            continue
                        done += 1
                        for r, (g, w) in enumerate(zip(e, want)):
                            if not c13.close(g, w):
                                vs.append((
                                    "C14:explicit:%s:%s" % (
                                        name, "active" if w else "masked"),
                                    "ExplicitConstraintSet::%s gives error "
                                    "%s instead of %g on a row that is %s" % (
                                        name, c13.say(g), w, "active" if w
                                        else "masked"), None))
                        b = truth(C_, s, v)
                        ok = sum(w * w for w in want) < 4.
                        if b is not None and one and b != ok or \
                                b is not None and not one and \
                                b != (hot == "masked"):
                            vs.append((
                                "C14:explicit:%s:test" % name,
                                "ExplicitConstraintSet::%s %s" % (
                                    name, "holds in spite of the error of an "
                                    "active row" if b else "fails because of "
                                    "masked rows"), None))
                        found.append((s, vs))
                    bad |= settle(R, found, f)
            if done and not bad:
                R.ok("ExplicitConstraintSet::%s(%s): %d paths" % (
                    name, ", ".join(ps), done))
            elif not done:
                R.unclear(f["q"])


# --------------------------------------------------------------------- masks
class Mask(c13.Own):
    TRACK = SETN

    def pre_call(self, I, st, node, ov, avs):
        n = (node.get("f") or "").rsplit("::", 1)[-1]
        if n == "shrink" and len(avs) == 1 and avs[0].path is not None:
            v = self.items(st, ("path", avs[0].path))
            m = members(v) if v is not None else None
            if m is not None:
                self.put(st, avs[0].path, runs(set(m)))
                return [(st, V())]
        return Tables.pre_call(self, I, st, node, ov, avs)


MASKS = ((True, False, False, True, True), (False, True), (True, True),
         (False, False, True), (True, False, True, False))


def masks(R, M):
    fs = [f for f in M.methods(IMP) if f.get("body") is not None and
          f["q"].rsplit("::", 1)[-1] == "computeActiveRows"]
    for f in fs:
        R.analysed(f)
        ok = done = 0
        for m in MASKS:
            C_ = Mask((EQ,) * len(m), {
                ("this", "mask_"): m,
                ("this", "activeRows_"): (("seg", 9, 1),),
                ("this", "inactiveRows_"): (("seg", 8, 1),)})
            I = Interp(M, C_)
            try:
                res = I.run(f, V(("this",), cls=IMP))
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            found = []
            for kind, s, v in res:
                if kind != "ret":
                    continue
                vs = []
                for name, keep in (("activeRows_", True),
                                   ("inactiveRows_", False)):
                    r = C_.rows(s, ("path", ("this", name)))
                    if r is None:
                        R.unclear("%s: %s" % (f["q"], name))
                        continue
                    exp = [i for i, b in enumerate(m) if b is keep]
                    if sorted(set(r)) != exp:
                        vs.append(("C14:mask:%s" % name,
                                   "%s leaves in %s rows %s for mask %s" % (
                                       short(f["q"]), name, r,
                                       [int(b) for b in m]), None))
                done += 1
                found.append((s, vs))
            ok += bool(found) and not settle(R, found, f)
        if ok == len(MASKS):
            R.ok("Implicit::%s: %d masks" % (short(f["q"]), done))
    if not fs:
        R.unclear("computeActiveRows not found")
    # rows set to zero
    for f in M.methods(IMP, "setInactiveRowsToZero"):
        if f.get("body") is None:
            continue
        R.analysed(f)
        a = ("arg:" + f["ps"][0]["n"],)
        for m in MASKS:
            C_ = Mask((EQ,) * len(m), {
                a: tuple(1. + i for i in range(len(m))),
                ("this", "mask_"): m,
                ("this", "activeRows_"): runs({i for i, b in enumerate(m)
                                               if b}),
                ("this", "inactiveRows_"): runs({i for i, b in enumerate(m)
                                                 if not b})})
            I = Interp(M, C_)
            try:
                res = I.run(f, V(("this",), cls=IMP))
            except TooBig as e:
                R.unclear("%s: %s" % (f["q"], e))
                continue
            found = []
            for kind, s, v in res:
                if kind != "ret":
                    continue
                r = C_.items(s, ("path", a))
                if r is None or None in r:
                    R.unclear("%s: error" % f["q"])
                    continue
                exp = tuple(1. + i if b else 0 for i, b in enumerate(m))
                found.append((s, [] if tuple(r) == exp else [(
                    "C14:setInactiveRowsToZero",
                    "setInactiveRowsToZero gives %s for mask %s" % (
                        list(r), [int(b) for b in m]), None)]))
            if found and not settle(R, found, f):
                R.ok("setInactiveRowsToZero, mask %s" % [int(b) for b in m])
    for f in M.methods(IMP, "checkAllRowsActive"):
        if f.get("body") is None:
            continue
        R.analysed(f)
        for m in MASKS:
            C_ = Mask((EQ,) * len(m), {
                ("this", "mask_"): m,
                ("this", "activeRows_"): runs({i for i, b in enumerate(m)
                                               if b}),
                ("this", "inactiveRows_"): runs({i for i, b in enumerate(m)
                                                 if not b})})
            I = Interp(M, C_)
            for kind, s, v in I.run(f, V(("this",), cls=IMP)):
                b = truth(C_, s, v) if kind == "ret" else None
                if b is None:
                    R.unclear("checkAllRowsActive")
                    continue
                R.check(b == all(m), "C14:checkAllRowsActive",
                        "checkAllRowsActive returns %s for mask %s" % (
                            b, [int(x) for x in m]), f["file"], f["line"],
                        text="checkAllRowsActive")


# ---------------------------------------------------- active rows of a level
class Level(Stacks):
    """Active rows of the constraints of a level, which of these depend on
    free variables."""
    NC = 3
    SIZES = ((2, 3, 2), (2, 3, 2))
    ACT = ((("seg", 0, 1),), (("seg", 1, 2),), (("seg", 0, 2),))

    def __init__(self, K, dep, at):
        Stacks.__init__(self, ((0.,) * 5, (0.,) * 4), ((), ()))
        self.K = K
        self.dep = dep
        self.at = at

    def place(self, st, p):
        l = self.level(self.real(st, p))
        if l and l[1] == "stacks_" and len(l[2]) > 1 and \
                l[2][0] == "constraints_" and isinstance(l[2][1], tuple) and \
                l[2][1][0] == "[]" and len(l[2][1]) > 1:
            j = self.pos(st, l[2][1], self.NC)
            if j is not None and 0 <= j < self.NC:
                return l[0], j, l[2][2:]
        return None

    def initial(self, st, p):
        l = self.level(p)
        if l and l[1] == "stacks_" and l[2] == ("constraints_",):
            return (None,) * self.NC
        c = self.place(st, p)
        if c and c[2] == ("activeRows_",):
            return self.ACT[c[1]]
        if c and c[2] == ("inactiveRows_",):
            n = self.SIZES[c[0]][c[1]]
            return runs(set(range(n)) - set(members(self.ACT[c[1]])))
        if l and l[2] == ("activeRowsOfJ",):
            return (("seg", 20, 1),)
        return Stacks.initial(self, st, p)

    def quantity(self, st, k):
        if k[0] == "path" and k[1] == (self.par,):
            return self.at
        return Stacks.quantity(self, st, k)

    def choose(self, I, st, key):
        if key[0] == "truth" and key[1][0] == "call" and \
                key[1][1].rsplit("::", 1)[-1] == "any":
            k = key[1]
            js = {c[1] for p in deps(k) for c in [self.place(st, p)]
                  if c}
            if len(js) == 1 and c13.mentions(k, ("freeVariables_",)):
                if self.dep[min(js)]:
                    return True
                if self.K == HI:
                    return False
        return Stacks.choose(self, I, st, key)

    def guess(self, I, st, key):
        # sizes of matrices of dependence
        if not c13.mentions(key, ("any", "size")) and not any(
                "explicit_" in p for p in deps(key)):
            Stacks.guess(self, I, st, key)


def stacked(R, M):
    for K in (HI, BS):
        for f in M.methods(K, "computeActiveRowsOfJ"):
            if f.get("body") is None:
                continue
            R.analysed(f)
            for at in (0, 1):
                for dep in ((True, True, True), (True, False, True),
                            (False, True, True), (False, False, False)):
                    C_ = Level(K, dep, at)
                    C_.par = "arg:" + f["ps"][0]["n"]
                    I = Interp(M, C_)
                    try:
                        res = I.run(f, V(("this",), cls=K))
                    except TooBig as e:
                        R.unclear("%s: %s" % (f["q"], e))
                        continue
                    found = []
                    for kind, s, v in res:
                        if kind != "ret":
                            continue
                        m = C_.rows(s, ("path", (
                            "this", "datas_", ("[]", ("lit", at)),
                            "activeRowsOfJ")))
                        if m is None:
                            R.unclear("%s: rows" % f["q"])
                            continue
                        vs = []
                        off = 0
                        left = set(m)
                        for j in range(3):
                            own = {off + r for r in members(C_.ACT[j])}
                            got = left & set(range(
                                off, off + C_.SIZES[at][j]))
                            left -= got
                            off += C_.SIZES[at][j]
                            if got == own or not got and not dep[j]:
                                if got and not dep[j] and K == HI:
                                    vs.append((
                                        "C14:activeRowsOfJ:%s:nodep" %
                                        short(K), "%s::computeActiveRowsOfJ "
                                        "keeps rows of a constraint that "
                                        "depends on no free variable"
                                        % short(K), None))
                                continue
                            vs.append((
                                "C14:activeRowsOfJ:%s" % short(K),
                                "%s::computeActiveRowsOfJ gives rows %s for "
                                "a constraint whose active rows in the level "
                                "are %s" % (short(K), sorted(got),
                                            sorted(own)), None))
                        if left:
                            vs.append((
                                "C14:activeRowsOfJ:%s:extra" % short(K),
                                "%s::computeActiveRowsOfJ gives rows %s that "
                                "are rows of no constraint" % (
                                    short(K), sorted(left)), None))
                        found.append((s, vs))
                    if found and not settle(R, found, f):
                        R.ok("%s::computeActiveRowsOfJ(%d), dependence %s" % (
                            short(K), at, dep))


# ------------------------------------------------------------ linear systems
class Descent(Rows):
    """Right hand sides of the linear systems of each level."""
    TRACK = ()

    def __init__(self, comp, n):
        raw = tuple(tuple(float(10 * i + j + 1) for j in range(len(c)))
                    for i, c in enumerate(comp))
        Rows.__init__(self, comp, raw, ((1,), (0, 2)))
        self.solved = []
        self.systems = []
        self.n = n

    def initial(self, st, p):
        if p in (("this", "stacks_"), ("this", "datas_")):
            return (None,) * self.n
        l = self.level(p)
        if l and l[2] == ("error",):
            return self.raw[l[0]]
        if l and l[2] == ("reducedJ",):
            return tuple(("J", l[0], j) for j in range(len(self.comp[l[0]]))
                         if j not in self.inactive[l[0]])
        return Rows.initial(self, st, p)

    def svd(self, p):
        l = self.level(p)
        return l[0] if l and l[1] == "datas_" and l[2] == ("svd",) else None

    def write(self, I, st, path, node, how, val=None):
        if how in ("-=", "+=") and path and path[0][0] in "LT":
            b, idx = self.sel(st, path)
            v = self.get(st, b)
            if v is not None and idx is not None and len(idx) == len(v):
                self.put(st, b, tuple(x if isinstance(x, tuple) and
                                      x[0] == "less" else ("less", x)
                                      for x in v))
                return
        Rows.write(self, I, st, path, node, how, val)

    def method(self, I, st, node, n, p, avs):
        p = self.real(st, p)
        i = self.svd(p)
        if i is not None and n == "solve" and avs:
            v = self.items(st, avs[0].k())
            self.solved.append((i, v, node))
        if i is not None and n == "compute" and avs:
            # levels of the Jacobians it mentions
            ls = {self.level(q)[0] for q in deps(avs[0].k())
                  for q in [self.real(st, q)]
                  if self.level(q) and "reducedJ" in q}
            self.systems.append((i, ls, node))
        return Rows.method(self, I, st, node, n, p, avs)


def descent(R, M):
    for K in (HI, BS):
        for f in M.methods(K, "computeDescentDirection"):
            if f.get("body") is None:
                continue
            R.analysed(f)
            n = 0
            for levels in (1, 2):
                C_ = Descent(COMP, levels)
                I = Interp(M, C_)
                try:
                    I.run(f, V(("this",), cls=K))
                except TooBig as e:
                    R.unclear("%s: %s" % (f["q"], e))
                    continue
                for i, v, node in C_.solved:
                    if v is None or None in v:
                        R.unclear("%s: right hand side of a system" % f["q"])
                        continue
                    exp = [-x for j, x in enumerate(C_.raw[i])
                           if j not in C_.inactive[i]]
                    got = [x[1] if isinstance(x, tuple) and x[0] == "less"
                           else x for x in v]
                    n += 1
                    R.check(got == exp, "C14:descent:rhs",
                            "the right hand side of the linear system of a "
                            "level is not the opposite of the error of the "
                            "active rows of this level", f["file"],
                            node.get("l") or f["line"],
                            ["level %d of %d" % (i, levels),
                             "got %s" % (got,), "expected %s" % (exp,)],
                            text="right hand side of level %d of %d" % (
                                i, levels))
                for i, ls, node in C_.systems:
                    if len(ls) != 1:
                        R.unclear("%s: matrix of a system" % f["q"])
                        continue
                    n += 1
                    R.check(ls == {i}, "C14:descent:matrix",
                            "the matrix of the linear system of level %d "
                            "is the Jacobian of another level" % i,
                            f["file"], node.get("l") or f["line"],
                            text="matrix of level %d of %d" % (i, levels))
            if not n:
                R.unclear("%s: no linear system" % f["q"])
