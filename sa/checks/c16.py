"""C16: symbolic expressions never use stale or unset intermediate results."""
import re
from ..flow import flow
from ..interp import (Client, Interp, V, norm, deps, NOC, TooBig, covers,
                      overlap, show_path)
from ..model import short, walk
from ..util import DF, NS, base, own_classes, tag

EXPLAIN = """Typestate analysis of the symbolic expressions. For every
expression object (operands, elements, expressions held by functions) the
analysis tracks on each path which of its quantities (value, cross product
matrix, Jacobian, singular value decomposition, pseudo inverse and its
Jacobian) have been computed since it was invalidated, and requires the
quantity at each read. The functions that fill the caches are checked
separately: they return early only when their own flag is set, set it only on
paths that computed the quantity, constructors clear the flags, and
invalidation clears them and reaches every operand the class computes."""

CALC = NS + "CalculusBaseAbstract"
VAL, CROSS, JAC, SVD, PINV, PJAC, CLEAN = 1, 2, 4, 8, 16, 32, 64
COMPUTE = {"computeValue": VAL, "computeCrossValue": VAL | CROSS,
           "computeJacobian": JAC, "computeSVD": VAL | SVD,
           "computePseudoInverse": VAL | SVD | PINV,
           "computePseudoInverseJacobian": VAL | JAC | SVD | PINV | PJAC}
OWN = {"computeValue": VAL, "computeCrossValue": CROSS,
       "computeJacobian": JAC, "computeSVD": SVD,
       "computePseudoInverse": PINV}
READ = {"value": VAL, "cross": CROSS, "jacobian": JAC, "svd": SVD,
        "pinv": PINV, "pinvJacobian": PJAC}
TEXT = {VAL: "value", CROSS: "cross product matrix", JAC: "Jacobian",
        SVD: "singular value decomposition", PINV: "pseudo inverse",
        PJAC: "Jacobian of the pseudo inverse"}
SIZES = ("rows", "cols", "size", "innerSize", "outerSize")


def accessors(M):
    """{member: flag} of the members that hold the cached quantities."""
    if hasattr(M, "_calc_acc"):
        return M._calc_acc
    out = {}
    for K in [CALC] + M.descendants(CALC):
        for n, fl in READ.items():
            for f in M.methods(K, n):
                if f.get("body") is None or f["ps"]:
                    continue
                for k, s, v in Interp(M, Client()).run(f):
                    if k == "ret" and isinstance(v, V) and v.path and \
                            v.path[0] == "this" and len(v.path) == 2:
                        c, fd = M.field(K, v.path[1])
                        if fd and c in [CALC, NS + "CalculusBase",
                                        NS + "MatrixOfExpressions"]:
                            out[v.path[1]] = fl
    M._calc_acc = out
    return out


def callee_class(node):
    return (node.get("f") or "").rpartition("::")[0]


class CalcClient(Client):
    loop_min1 = True

    def __init__(self, M, root, K, calc):
        self.M = M
        self.root = root
        self.K = K
        self.calc = calc          # the function belongs to an expression
        self.acc = accessors(M)
        self.bad = {}
        self.nread = 0
        self.operands = set()
        self.ops = {}
        self.skip = None

    def is_calc(self, node):
        c = callee_class(node)
        return c.startswith(NS) and self.M.isa(c, CALC)

    def state(self, st, p):
        return st.cl.get(("calc", norm(p)), 0)

    def setstate(self, st, p, v):
        st.cl = dict(st.cl)
        st.cl[("calc", norm(p))] = v

    def report(self, I, node, key, msg):
        g = I.stack[-1][0]
        self.bad.setdefault(key, (msg, g.get("file"), (node or {}).get("l"), [
            "%s:%s" % (h["q"], (x or {}).get("l")) for h, x in I.stack]))

    def operand(self, p):
        if norm(p) != ("this",) and p[0] == "this":
            self.operands.add(norm(p))

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] != "call":
            return None
        name = base(node.get("f") or "")
        if ov is None and name == "computeCrossMatrix" and len(avs) == 2 and \
                avs[1].path is not None:
            I.use(st, avs[0], node["a"][0])
            self.wrote(st, avs[1].path, V(key=("cross", avs[0].k())))
            return [(st, V())]
        if ov is None:
            return None
        if name in SIZES and ov.path is not None:
            return [(st, V(key=("call", node["f"], ov.k(), ())))]
        if not self.is_calc(node) or ov.path is None:
            return None
        p = norm(ov.path)
        if name in COMPUTE and p == ("this",) and len(I.stack) == 1 and \
                self.root is not None and base(self.root["q"]) == name:
            return None
        if name in COMPUTE:
            self.operand(p)
            cur = self.state(st, p)
            if not self.calc and not cur & CLEAN and not any(
                    self.state(st, p[:i]) & CLEAN
                    for i in range(1, len(p))):
                self.report(I, node, "stale:%s" % show_path(p),
                            "%s of %s is requested without having "
                            "invalidated it for the new configuration" %
                            (TEXT[OWN.get(name, PJAC)], show_path(p)))
            self.setstate(st, p, cur | COMPUTE[name])
            return [(st, V())]
        if name == "invalidate":
            if not (self.calc and p == ("this",)):
                self.setstate(st, p, CLEAN)
                for q in self.ops.get(p, ()):
                    self.setstate(st, q, self.state(st, q) | CLEAN)
                return [(st, V())]
            return None
        if name in READ and not node.get("a"):
            return [(st, V(ov.path + ("<%d>" % READ[name],)))]
        return None

    def read(self, I, st, path, node):
        n = norm(path)
        for i, x in enumerate(n):
            fl = None
            if isinstance(x, str) and x.startswith("<") and \
                    x[1:-1].isdigit():
                fl = int(x[1:-1])
            elif i > 0 and x in self.acc and (
                    n[:i] == ("this",) and self.calc or
                    n[:i] in {k[1] for k in st.cl if isinstance(k, tuple)
                              and k[0] == "calc"}):
                fl = self.acc[x]
            if fl is None:
                continue
            obj = n[:i]
            self.nread += 1
            if obj == ("this",) and x in self.acc and self.calc and \
                    x in self.unused(I):
                self.report(I, node, "unset:%s" % x,
                            "%s is read but the %s of %s is kept elsewhere" %
                            (x, TEXT[fl], short(self.dyn)))
                return
            if not self.state(st, obj) & fl:
                self.report(I, node, "unset:%s:%s" %
                            (show_path(obj), TEXT[fl]),
                            "the %s of %s is read but was not computed for "
                            "the current configuration" %
                            (TEXT[fl], show_path(obj)))
            return

    def unused(self, I):
        """Members of the base class the actual class does not use: it
        overrides the accessor with one that returns something else."""
        if self.skip is None:
            self.skip = set()
            g = self.root
            T = self.K
            if g.get("cls") == NS + "CalculusBase" and g.get("cta"):
                T = re.split("[<,]", g["cta"])[0]
                if not T.startswith(NS):
                    T = NS + T
            self.dyn = T
            for n, fl in READ.items():
                for f in self.M.methods(T, n):
                    if f.get("body") is None or f["ps"]:
                        continue
                    for k, s, v in Interp(self.M, Client()).run(f):
                        if k == "ret" and isinstance(v, V) and not (
                                v.path and len(v.path) == 2 and
                                v.path[1] in self.acc):
                            self.skip |= {m for m, x in self.acc.items()
                                          if x == fl}
        return self.skip

    def copied(self, I, st, dst, src, node):
        self.read(I, st, src, node)
        self.wrote(st, dst, V(src))

    def write(self, I, st, path, node, how, val=None):
        if how != "alias":
            self.wrote(st, path, val)

    def track_scal(self, path, v):
        return path[0] == "this" and isinstance(v, bool) and self.calc

    def wrote(self, st, path, val=None):
        n = norm(path)
        for i in range(1, len(n)):
            if n[i] in self.acc and (n[:i] == ("this",) and self.calc):
                st.cl = dict(st.cl)
                st.cl[("wrote", n[i])] = val.k() if val is not None else "?"
                self.setstate(st, n[:i], self.state(st, n[:i]) |
                              self.acc[n[i]])

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def inline(self, I, st, node, f, ov, avs):
        return (f.get("cls") or f["q"]).startswith(NS)


def sharing(M, K):
    """{member: members it was built from} from the constructors."""
    out = {}
    for g in M.funcs:
        if g.get("cls") != K or not g.get("ctor"):
            continue
        try:
            fc, rs = flow(M, g, V(("this",), cls=K))
        except TooBig:
            continue
        ms = {t[:2] for t, s, k in fc.edges if t[0] == "this" and len(t) > 1}
        for m in ms:
            for x in fc.reach(m, "enid"):
                if x[0] == "this" and len(x) > 1 and x[:2] != m:
                    out.setdefault(x[:2], set()).add(m)
    return out


class CtorClient(Client):
    pass


def flags_of(M, K):
    """{kind: members} flags set by the functions that fill the caches."""
    out = {}
    for c in [K] + M.ancestors(K):
        for n, kind in OWN.items():
            for f in M.methods(c, n):
                for x in setters(f):
                    out.setdefault(kind, set()).add(x)
    return out


def setters(f):
    """Boolean members of this that the function sets to true."""
    out = set()
    for n in walk(f.get("body")):
        if n["k"] == "bin" and n.get("op") == "=" and \
                n["x"].get("k") == "mem" and n["x"].get("r") == "bool" and \
                (n["y"].get("cv") is True or n["y"].get("v") is True):
            out.add(n["x"]["n"])
    return out


class FillClient(Client):
    """A function that fills a cache: what did each path do?"""
    loop_min1 = True

    def __init__(self, M, kind):
        self.M = M
        self.kind = kind
        self.acc = accessors(M)
        self.sets = set()

    def mark(self, st, what):
        st.cl = dict(st.cl)
        st.cl[what] = True

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] != "call":
            return None
        n = base(node.get("f") or "")
        if n == {VAL: "impl_value", JAC: "impl_jacobian"}.get(self.kind):
            self.mark(st, "done")
            return [(st, V())]
        if n in COMPUTE and ov is not None and ov.path == ("this",) and \
                len(I.stack) >= 1 and n != base(I.stack[0][0]["q"]):
            return [(st, V())]
        return None

    def write(self, I, st, path, node, how, val=None):
        n = norm(path)
        if n[0] != "this" or len(n) < 2 or how == "alias":
            return
        if self.acc.get(n[1]) == self.kind:
            self.mark(st, "done")
        if val is not None and val.const is True and len(n) == 2:
            self.sets.add(n[1])
            self.mark(st, ("set", n[1]))
            if not st.cl.get("done"):
                self.mark(st, ("early", n[1]))
        elif len(n) == 2 and val is not None and val.const is False:
            st.cl = {k: v for k, v in st.cl.items() if k != ("set", n[1])}

    def track_fact(self, key):
        return key[0] == "truth" and all(p[0] == "this" and len(p) == 2
                                         for p in deps(key))

    def track_scal(self, path, v):
        return path[0] == "this" and isinstance(v, bool)

    def decided(self, I, st, key, value):
        if key[0] == "truth" and value is True:
            for p in deps(key):
                if p[0] == "this" and len(p) == 2 and \
                        not st.cl.get(("set", p[1])):
                    self.mark(st, ("was", p[1]))


class FlagClient(Client):
    loop_min1 = True

    def __init__(self):
        self.called = None

    def track_scal(self, path, v):
        return path[0] == "this" and isinstance(v, bool)

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] == "call" and base(node.get("f") or "") == \
                "invalidate" and ov is not None and ov.path is not None and \
                norm(ov.path) != ("this",):
            st.cl = dict(st.cl)
            st.cl["inv"] = st.cl.get("inv", frozenset()) | {norm(ov.path)}
            return [(st, V())]
        return None


def run(R, M):
    R.rule("a quantity of an expression is read only after having been "
           "computed since the expression was invalidated")
    R.rule("a function invalidates an expression before asking it for the "
           "quantities of a new argument")
    R.rule("a cache is flagged valid only on paths that computed it, and "
           "returned early only under its own flag")
    R.rule("constructors clear all the flags")
    R.rule("invalidate clears all the flags and reaches every operand")
    R.assume("no operand is invalidated by another thread")
    calcs = [K for K in M.descendants(CALC) if M.rec(K)]
    R.count("expression classes", len(calcs))
    operands = {}
    jobs = []
    for K in calcs:
        for g in M.methods(K):
            n = base(g["q"])
            if g.get("ctor") or g.get("static") or g.get("const") or \
                    n in ("invalidate", "init", "setSize", "set") or \
                    n in READ or n.startswith("operator"):
                continue
            jobs.append((K, g, True))
    for K in own_classes(M, DF):
        for n in ("impl_compute", "impl_jacobian"):
            for g in M.methods(K, n):
                jobs.append((K, g, False))
    share = {}
    values = {}
    for K, g, calc in sorted(jobs, key=lambda j: base(j[1]["q"]) !=
                             "impl_value"):
        if g.get("body") is None:
            continue
        c = CalcClient(M, g, K, calc)
        if not calc:
            if K not in share:
                share[K] = sharing(M, K) if any(
                    n["k"] == "call" and c.is_calc(n)
                    for n in walk(g["body"])) else {}
            c.ops = share[K]
        I = Interp(M, c)
        I.maxsteps = 120000
        name = "%s%s::%s" % (short(K), tag(g), base(g["q"]))
        outs = []
        try:
            outs = I.run(g, V(("this",), cls=K))
        except TooBig as e:
            R.unclear("%s: %s" % (name, e))
        if calc:
            clobber(R, M, K, g, name, outs, values)
            operands.setdefault((K, g.get("cta")), set()).update(c.operands)
        for k, (msg, file, line, tr) in sorted(c.bad.items()):
            R.bad("%s:%s:%s" % (short(K), base(g["q"]), k),
                  "%s: %s" % (name, msg), file, line, tr)
        if c.nread or c.operands:
            R.analysed(g)
            R.count("reads", c.nread)
            for _ in range(0 if c.bad else max(c.nread, 1)):
                R.ok()
    fills(R, M, calcs)
    ctors(R, M, calcs)
    invalidates(R, M, calcs, operands)


def called(key):
    """Names of the functions a value is computed with."""
    out = set()
    if isinstance(key, tuple):
        if len(key) > 2 and key[0] in ("call", "#") and \
                isinstance(key[1], str):
            out.add(base(key[1]))
        for x in key:
            out |= called(x)
    return out


def clobber(R, M, K, g, name, outs, values):
    """A cached quantity may be overwritten only by the function that
    computes it, unless its flag is cleared or the same is written."""
    n = base(g["q"])
    acc = accessors(M)
    allowed = {"impl_value": VAL, "impl_jacobian": JAC,
               "computePseudoInverseJacobian": PJAC}.get(n, OWN.get(n))
    if allowed is None:
        return
    flags = flags_of(M, K)
    for k, s, v in outs:
        if k != "ret":
            continue
        for x, key in s.cl.items():
            if not (isinstance(x, tuple) and x[0] == "wrote"):
                continue
            kind = acc[x[1]]
            if n == "impl_value" and kind == VAL:
                values.setdefault((K, g.get("cta")), set()).add(key)
            if kind == allowed:
                continue
            if n in COMPUTE and COMPUTE[n] & kind:
                continue
            if any(s.scal.get(("this", m), NOC) is False
                   for m in flags.get(kind, ())):
                continue
            if key == "?" or key[0] != "cross" and kind == CROSS:
                continue
            if kind == CROSS:
                vs = values.get((K, g.get("cta")), set())
                if not vs or any(called(key[1]) - {"operator*"} ==
                                 called(y) - {"operator*"} for y in vs):
                    continue
            R.bad("%s:%s:clobber:%s" % (short(K), n, x[1]),
                  "%s overwrites the %s kept for later reads with something "
                  "else" % (name, TEXT[kind]), g["file"], g["line"])
        R.ok()


def fills(R, M, calcs):
    owner = {}
    for K in calcs:
        for n, kind in OWN.items():
            for f in M.methods(K, n):
                if f.get("body") is None:
                    continue
                c = FillClient(M, kind)
                I = Interp(M, c)
                I.maxsteps = 60000
                name = "%s%s::%s" % (short(K), tag(f), n)
                try:
                    outs = I.run(f, V(("this",), cls=K))
                except TooBig as e:
                    R.unclear("%s: %s" % (name, e))
                    continue
                R.analysed(f)
                R.count("functions that fill a cache")
                for m in c.sets:
                    o = owner.setdefault((K, m), (kind, n))
                    R.check(o[0] == kind, "%s:flag:%s" % (short(K), m),
                            "%s sets %s, the flag of %s" % (name, m, o[1]),
                            f["file"], f["line"])
                for k, s, v in outs:
                    if k != "ret":
                        continue
                    was = {x[1] for x in s.cl if isinstance(x, tuple) and
                           x[0] == "was"}
                    sets = {x[1] for x in s.cl if isinstance(x, tuple) and
                            x[0] == "set"}
                    early = {x[1] for x in s.cl if isinstance(x, tuple) and
                             x[0] == "early"}
                    done = s.cl.get("done")
                    if done:
                        R.ok("%s computes the %s" % (name, TEXT[kind]))
                        continue
                    R.check(bool(was & c.sets), "%s:%s:return" %
                            (short(K), n),
                            "%s can return without having computed the %s "
                            "although its flag is not known to be set" %
                            (name, TEXT[kind]), f["file"], f["line"],
                            text="%s returns early only under its flag" %
                            name)
                    R.check(not sets - was, "%s:%s:set" % (short(K), n),
                            "%s flags the %s valid without computing it" %
                            (name, TEXT[kind]), f["file"], f["line"])


def ctors(R, M, calcs):
    for K in calcs:
        own = {m for ms in flags_of(M, K).values() for m in ms
               if m in {f["n"] for f in M.fields(K)}}
        if not own:
            continue
        for f in M.methods(K):
            if not f.get("ctor"):
                continue
            c = FlagClient()
            I = Interp(M, c)
            name = "%s%s constructor (line %s)" % (short(K), tag(f),
                                                   f["line"])
            try:
                outs = I.run(f, V(("this",), cls=K))
            except TooBig as e:
                R.unclear("%s: %s" % (name, e))
                continue
            R.analysed(f)
            for k, s, v in outs:
                if k != "ret":
                    continue
                for m in sorted(own):
                    val = s.scal.get(("this", m), NOC)
                    R.check(val is False, "%s:ctor:%s" % (short(K), m),
                            "%s leaves the flag %s %s" %
                            (name, m, "set" if val is True else
                             "undefined or copied"), f["file"], f["line"],
                            text="%s clears %s" % (name, m))


def invalidates(R, M, calcs, operands):
    for K in calcs:
        variants = {}
        for f in M.methods(K):
            if base(f["q"]) in ("impl_value", "impl_jacobian",
                                "computeSVD"):
                variants.setdefault(f.get("cta"), f)
        flags = {m for ms in flags_of(M, K).values() for m in ms}
        for cta in variants:
            ops = operands.get((K, cta), set())
            fs = []
            for c in [K] + M.ancestors(K):
                fs = [f for f in M.methods(c, "invalidate")
                      if c != K or f.get("cta") == cta]
                if fs:
                    break
            if not fs:
                continue
            f = fs[0]
            c = FlagClient()
            I = Interp(M, c)
            name = "%s::invalidate" % short(K)
            try:
                outs = I.run(f, V(("this",), cls=K))
            except TooBig as e:
                R.unclear("%s: %s" % (name, e))
                continue
            R.analysed(f)
            R.count("invalidate functions")
            for k, s, v in outs:
                if k != "ret":
                    continue
                for m in sorted(flags):
                    R.check(s.scal.get(("this", m), NOC) is False,
                            "%s:invalidate:%s" % (short(K), m),
                            "%s leaves the flag %s unchanged" % (name, m),
                            f["file"], f["line"],
                            text="%s clears %s" % (name, m))
                inv = s.cl.get("inv", frozenset())
                for o in sorted(ops):
                    R.check(o in inv, "%s:invalidate:%s" %
                            (short(K), show_path(o)),
                            "%s does not invalidate the operand %s" %
                            (name, show_path(o)), f["file"], f["line"],
                            text="%s reaches %s" % (name, show_path(o)))
