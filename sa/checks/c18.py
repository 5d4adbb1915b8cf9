"""C18: right hand side setters and getters use one layout."""
from ..interp import NOC, Interp, TooBig, V, norm, show_key, show_path
from ..layout import (END, ZERO, Layout, key_views, locvar, problems,
                      selectors, views)
from ..model import short
from ..solver import BS, ECS, HI
from ..units import Units
from ..util import base

EXPLAIN = """Symbolic layout analysis. Every function of the solvers and of
the explicit constraint set that sets, returns or counts right hand sides is
interpreted on all its paths; which part of which vector each path or loop
iteration reads and writes is kept as a symbolic interval (start, length).
Starts and lengths must be in configuration units, running offsets must
advance by the length used on every iteration, the part of a constraint must
be at the level and at the offset recorded for that constraint, elements must
be the one that was found, and the solver by substitution must give the
implicit part the head and the explicit part the tail of the vector, in
setters, getters and sizes alike."""

WHOLE = {"rightHandSide", "rightHandSideFromConfig", "rightHandSideFromInput",
         "getRightHandSide", "rightHandSideSize", "rightHandSideAt"}
PARTS = WHOLE | {"isConstraintSatisfied"}


def vec(p):
    """Is the parameter a vector of values?"""
    t = p["t"]
    return "vector" in t.lower() and "Implicit" not in t or \
        "Configuration" in t or "Eigen::Ref" in t


def constraint_param(f):
    for p in f["ps"]:
        if "Implicit" in p["t"] or "Explicit" in p["t"]:
            return "arg:" + (p["n"] or "")
    return None


def mentions(k, root):
    if isinstance(k, tuple):
        return any(mentions(x, root) for x in k)
    return k == root


def blocks(path, name):
    """What the last view of this name in the path may be taken through."""
    for i in range(len(path) - 1, -1, -1):
        x = path[i]
        if isinstance(x, tuple) and x[:2] == ("#", name):
            return [("path", path[:i])] + list(x[2][:1])
    return []


class Rhs(Layout):
    """Also: levels and elements used, whether something was set."""

    def __init__(self, field):
        Layout.__init__(self)
        self.field = field
        self.masks = []
        self.wrote = {}         # loop -> {written in an iteration: place}
        self.static = []
        self.pairs = []

    def pre_call(self, I, st, node, ov, avs):
        if node.get("virt") and node.get("qual") and ov is not None and \
                ov.path == ("this",) and len(I.stack) == 1 and \
                base(node["f"]) in PARTS and I.stack[0][0].get("cls") == HI:
            self.static.append((base(node["f"]), self.place(I, node)))
        if base(node.get("f") or "") == "rightHandSide" and len(avs) == 2 \
                and len(I.stack) == 1:
            a = {x for x in selectors(avs[0].k()) if x[0][-1] ==
                 "constraints_"}
            b = {x for x in selectors(avs[1].k()) if x[0][-1] ==
                 "constraints_"}
            self.pairs.append((a, b, self.place(I, node)))
            self.event(st, ("wr",))
        return None

    def flag(self, st, what):
        st.cl = dict(st.cl)
        st.cl["set"] = frozenset(
            t | {what} for t in st.cl.get("set", frozenset({frozenset()})))

    def write(self, I, st, path, node, how, val=None):
        Layout.write(self, I, st, path, node, how, val)
        self.target(I, st, path, node, how)

    def copied(self, I, st, dst, src, node):
        Layout.copied(self, I, st, dst, src, node)
        self.target(I, st, dst, node, "=")
        a, b = blocks(dst, "lview"), blocks(src, "rview")
        if a and b:
            self.masks.append((a, b, self.place(I, node)))

    def on_next(self, I, st, node):
        k = ("tr", len(I.stack), node.get("l"))
        free = any(mentions(x, y) for x in st.facts for y in (
            "equalityIndices", "comparison", "comparison_",
            "equalityIndices_", "parameterSize_", "rhsFunction_"))
        for t in st.cl.get(k, ()):
            w = ("wr",) in t
            if w or not free:
                self.wrote.setdefault(k, {}).setdefault(
                    w, self.place(I, node))
        Layout.on_next(self, I, st, node)

    def target(self, I, st, path, node, how):
        if how in ("alias", "decl") or how.startswith("arg") and \
                how.endswith("elementRef"):
            return
        for p in self.reached(path):
            if norm(p)[-1] == self.field or self.field in norm(p):
                self.flag(st, "field")
                self.event(st, ("wr",))
            if p[0].startswith("arg:"):
                self.flag(st, p[0])

    def reached(self, path):
        """The path and those the views in it are applied to."""
        out = [path]
        for c, a, s, n in views(path):
            out.append(c)
        return out


def flags(st):
    return st.cl.get("set", frozenset({frozenset()}))


def run(R, M):
    R.rule("starts and lengths of right hand side parts are in configuration "
           "units")
    R.rule("a running offset advances by the length used, on every iteration")
    R.rule("the part of one constraint is taken at its own level and offset")
    R.rule("an element is set, read or tested where it was found")
    R.rule("implicit constraints have the head, explicit ones the tail")
    R.rule("a function that reports that it found the constraint has set or "
           "returned the right hand side")
    R.assume("the tables of levels and offsets are right (C12)")
    for K, field in ((HI, "rightHandSide"), (ECS, "rhs_implicit")):
        for f in M.methods(K):
            n = base(f["q"])
            if n in PARTS and f.get("body") is not None:
                member(R, M, K, f, n, field)
    for f in M.methods(BS):
        n = base(f["q"])
        if n in PARTS and f.get("body") is not None:
            composed(R, M, f, n)
        elif n == "load" and f.get("body") is not None:
            member(R, M, BS, f, n, "rhs_implicit")


def roles(f, n):
    out = {}
    for p in f["ps"]:
        if vec(p) and p["n"]:
            if n == "isConstraintSatisfied" and p is not f["ps"][1]:
                out["arg:" + p["n"]] = "v"
            else:
                out["arg:" + p["n"]] = "q"
    return out


def member(R, M, K, f, n, field):
    name = short(f["q"])
    c = Rhs(field)
    I = Interp(M, c)
    I.maxsteps = 3000000
    try:
        outs = I.run(f, V(("this",), cls=K))
    except TooBig as e:
        R.unclear("%s: %s" % (name, e))
        return
    R.analysed(f)
    cp = constraint_param(f)
    role = roles(f, n)
    for u in c.uses:
        p = u[0]
        if len(p) == 1 and isinstance(p[0], str) and \
                p[0].startswith("L") and n != "isConstraintSatisfied":
            if "rhs" in p[0].lower() or "righthand" in p[0].lower():
                role[p[0]] = "q"
    prs, nl = problems(c, role)
    R.count("loops", nl)
    R.count("parts of vectors", len(c.uses))
    for key, msg, place in prs:
        R.bad("%s:%s" % (name, key), "%s: %s" % (name, msg), *place)
    if not prs:
        R.ok("%s: %d parts, %d loops" % (name, len(c.uses), nl))
    skipped(R, c, name)
    if not constraint_param(f):
        order(R, c, name)
        # rightHandSideAt leaves out what does not depend on time, which is
        # decided from facts the interpretation does not keep
        if n.startswith("rightHandSide") and n != "rightHandSideAt" and \
                not f.get("const"):
            for k, d in c.wrote.items():
                if True in d:
                    R.count("loops that set")
                    R.check(False not in d, "%s:some" % name, "%s leaves the "
                            "right hand side of an element as it is on a path "
                            "of the loop" % name, *d.get(False, ()))
    for a, b, place in c.pairs:
        R.check(not a or not b or a & b, "%s:value" % name, "%s sets the right "
                "hand side of one constraint to that of another" % name,
                *place)
    for n2, place in c.static:
        R.bad("%s:dispatch" % name, "%s calls %s of the base class whatever "
              "the type of the solver" % (name, n2), *place)
    for a, b, place in c.masks:
        R.count("masked copies")
        R.check(set(a) & set(b), "%s:mask" % name, "%s copies rows %s into "
                "rows %s" % (name, show_key(b[0]), show_key(a[-1])), *place)
    U = c.units()
    if n == "rightHandSideSize":
        for k, s, v in outs:
            if k == "ret" and isinstance(v, V):
                us = {U.of(v.k())}
                for ks in c.adv.values():
                    us |= {U.of(x) for x in ks}
                u = U.join(us)
                R.check(u in (None, "q"), "%s:unit" % name, "%s counts %s "
                        "coefficients" % (name, "tangent" if u == "v" else
                                          "both configuration and tangent"),
                        f["file"], f["line"])
    if cp:
        single(R, M, K, f, n, name, c, outs, cp, field)


def skipped(R, c, name):
    """An offset that some iterations leave unchanged."""
    for loop, traces in c.iters.items():
        some = set()
        for t in traces:
            some |= {e[1] for e in t if e[0] == "adv"}
        for v in some:
            if not any(locvar(u[2]) == v for u in c.uses):
                continue
            miss = [p for t, p in traces.items()
                    if not any(e[0] == "adv" and e[1] == v for e in t)]
            R.check(not miss, "%s:skip" % name, "%s: an iteration ends without "
                    "advancing the offset %s" % (name, v.split("#")[0]),
                    *(miss[0][:2] if miss else ()))


def order(R, c, name):
    """Elements in the order of their indices, at a running offset."""
    for (p, a, s, n), place in c.uses.items():
        if locvar(s) is None or locvar(s) not in c.adv:
            continue
        for cont, i in selectors(n) | selectors(("path", p)):
            if cont[-1] not in ("data_", "datas_", "stacks_"):
                continue
            R.count("elements at a running offset")
            v = locvar(i)
            first = c.sets.get(v, {}) if v else {}
            R.check(i[0] == "lit" or v and all(
                k[0] == "lit" and k[1] == 0 for k in first),
                "%s:order" % name, "%s lays out %s in the order of %s" % (
                    name, cont[-1], show_key(i)), *place)


def index_of(path, cont):
    for i, x in enumerate(path):
        if isinstance(x, tuple) and x[0] == "[]" and len(x) > 1 and i and \
                path[i - 1] == cont:
            return x[1]
    return None


def single(R, M, K, f, n, name, c, outs, cp, field):
    """Functions about one constraint."""
    for (p, a, s, ln), place in sorted(c.uses.items(), key=str):
        idx = index_of(p, "datas_")
        if idx is None or K != HI:
            continue
        R.count("parts of one constraint")
        lit = idx[0] == "lit"
        wrong = mentions(idx, "iq_") or mentions(idx, "iv_")
        R.check(not lit and not wrong, "%s:level" % name,
                "%s uses level %s, not the level of the constraint" % (
                    name, show_key(idx)), *place)
        if norm(p)[-1] in ("rightHandSide", "output"):
            bad = s[0] == "lit" or s == END or mentions(s, "priority_") or \
                mentions(s, "iv_")
            R.check(not bad, "%s:start" % name, "%s addresses %s at %s, not "
                    "at the offset of the constraint" % (
                        name, show_path(p), show_key(s)), *place)
        own = mentions(ln, cp) or locvar(ln) is not None or \
            not mentions(ln, "this")
        R.check(own or mentions(ln, "priority_") or mentions(ln, "iq_"),
                "%s:length" % name,
                "%s takes the length %s, not that of the constraint" % (
                    name, show_key(ln)), *place)
    setter = n in ("rightHandSide", "rightHandSideFromConfig",
                   "rightHandSideFromInput")
    getter = n == "getRightHandSide"
    if not setter and not getter:
        return
    out = None
    if getter:
        vs = [p for p in f["ps"] if vec(p)]
        out = "arg:" + vs[0]["n"] if vs else None
    nt = 0
    for k, s, v in outs:
        if k != "ret" or not isinstance(v, V) or v.const is NOC:
            continue
        want = "field" if setter else out
        if want is None:
            continue
        done = all(want in t for t in flags(s))
        some = any(want in t for t in flags(s))
        if v.const is True:
            nt += 1
            R.count("successful paths")
            R.check(done, "%s:unset" % name, "%s reports that it found the "
                    "constraint on a path that sets nothing" % name,
                    f["file"], f["line"])
        elif v.const is False:
            R.check(not some, "%s:notfound" % name, "%s reports that it did "
                    "not find the constraint on a path that sets it" % name,
                    f["file"], f["line"])
    R.check(nt or not outs, "%s:never" % name, "%s never reports that it "
            "found the constraint" % name, f["file"], f["line"])
    if K == ECS:
        element(R, M, f, n, name, cp, field)


class Found(Rhs):
    """Which element was compared last, which one is then accessed."""

    def __init__(self, field, cp):
        Rhs.__init__(self, field)
        self.cp = cp
        self.acc = []

    def on_body(self, I, st, node):
        Rhs.on_body(self, I, st, node)
        st.cl = {k: v for k, v in st.cl.items() if k != "cmp"}

    def compared(self, I, st, e, a, b):
        self.cmp(st, a, b)

    def post_call(self, I, st, node, ov, avs, res):
        if (node.get("f") or "").endswith("operator==") or \
                node.get("op") == "==":
            ks = ([ov.k()] if ov is not None else []) + \
                [w.k() for w in avs]
            if len(ks) >= 2:
                self.cmp(st, ks[0], ks[1])

    def cmp(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if mentions(x, self.cp) and isinstance(y, tuple):
                i = self.idx(y)
                if i is not None:
                    st.cl = dict(st.cl)
                    st.cl["cmp"] = frozenset({i})

    def idx(self, k):
        if isinstance(k, tuple):
            if k[:1] == ("path",):
                return index_of(k[1], "data_")
            for x in k:
                r = self.idx(x)
                if r is not None:
                    return r
        return None

    def access(self, I, st, path, node):
        if self.field in norm(path):
            i = index_of(path, "data_")
            if i is not None:
                self.acc.append((i, st.cl.get("cmp"), self.place(I, node)))

    def write(self, I, st, path, node, how, val=None):
        Rhs.write(self, I, st, path, node, how, val)
        if how not in ("alias", "decl"):
            self.access(I, st, path, node)

    def read(self, I, st, path, node):
        Rhs.read(self, I, st, path, node)
        self.access(I, st, path, node)

    def copied(self, I, st, dst, src, node):
        Rhs.copied(self, I, st, dst, src, node)
        self.access(I, st, src, node)
        self.access(I, st, dst, node)


def element(R, M, f, n, name, cp, field):
    c = Found(field, cp)
    try:
        Interp(M, c).run(f, V(("this",), cls=ECS))
    except TooBig:
        return
    for i, cmp, place in c.acc:
        R.count("elements accessed")
        if cmp is None or len(cmp) != 1:
            continue
        j = next(iter(cmp))
        R.check(i == j, "%s:element" % name, "%s finds the constraint in "
                "element %s but accesses element %s" % (
                    name, show_key(j), show_key(i)), *place)


# ------------------------------------------------------------ substitution
class Compose(Layout):
    """The implicit and the explicit parts are opaque."""

    def __init__(self, M):
        Layout.__init__(self)
        self.M = M
        self.assigned = []      # (which, kind, container, start, len, place)
        self.given = []         # (which, kind, arg index, key, place, fn)

    def which(self, node, ov):
        n = base(node.get("f") or "")
        if n not in PARTS or ov is None or ov.path is None:
            return None
        for g in self.M.callees(node):
            if g.get("cls") == HI and ov.path[0] == "this" and \
                    len(norm(ov.path)) == 1:
                return "implicit"
            if g.get("cls") == ECS:
                return "explicit"
        return None

    def pre_call(self, I, st, node, ov, avs):
        w = self.which(node, ov)
        if w is None or node.get("virt") and not node.get("qual") and \
                w == "implicit":
            return None
        n = base(node["f"])
        for v in avs:
            I.use(st, v, node)
        self.given.append((w, n, tuple(v.k() for v in avs),
                           self.place(I, node)))
        st = st.copy()
        if n != "rightHandSideSize":
            st.cl["called"] = frozenset(t | {w} for t in st.cl.get(
                "called", frozenset({frozenset()})))
        if node.get("r") == "bool":
            out = []
            for b in (True, False):
                s = st.copy()
                s.facts[("part", w)] = b
                out.append((s, V(const=b)))
            return out
        return [(st, V(key=("rhspart", w, n)))]

    def write(self, I, st, path, node, how, val=None):
        Layout.write(self, I, st, path, node, how, val)
        self.assign(I, st, path, node, val)

    def assign(self, I, st, path, node, val):
        if val is None:
            return
        k = val.k()
        if k[0] == "rhspart" and k[2] != "rightHandSideSize":
            vs = list(views(path))
            if vs:
                self.assigned.append((k[1], k[2]) + vs[-1] +
                                     (self.place(I, node),))


def sizes_in(k, out=None):
    out = set() if out is None else out
    if isinstance(k, tuple):
        if k[:1] == ("rhspart",) and k[2] == "rightHandSideSize":
            out.add(k[1])
        for x in k:
            sizes_in(x, out)
    return out


def is_size(k):
    if isinstance(k, tuple) and k[:1] == ("rhspart",) and \
            k[2] == "rightHandSideSize":
        return k[1]
    return None


SAME = {"rightHandSideFromInput": "rightHandSideFromConfig"}


def segment_rules(R, name, w, s, n, place, what):
    other = {"implicit": "explicit", "explicit": "implicit"}[w]
    R.count("parts given to or taken from a half")
    z = is_size(n)
    R.check(z in (None, w), "%s:size:%s" % (name, w), "%s: the %s part %s has "
            "the size of the %s part" % (name, w, what, other), *place)
    if w == "implicit":
        wrong = s == END and sizes_in(n) != {"implicit", "explicit"} or \
            is_size(s) is not None
    else:
        wrong = s == ZERO or is_size(s) == "explicit"
    R.check(not wrong, "%s:place:%s" % (name, w), "%s: the %s part %s is at "
            "the %s of the vector" % (
                name, w, what, "end" if w == "implicit" else "beginning or "
                "at a wrong offset"), *place)


def composed(R, M, f, n):
    name = short(f["q"])
    c = Compose(M)
    I = Interp(M, c)
    try:
        outs = I.run(f, V(("this",), cls=BS))
    except TooBig as e:
        R.unclear("%s: %s" % (name, e))
        return
    R.analysed(f)
    cp = constraint_param(f)
    for w, kind, cont, a, s, ln, place in c.assigned:
        segment_rules(R, name, w, s, ln, place, "of the result")
    called = {}
    for w, kind, ks, place in c.given:
        if kind == "rightHandSideSize":
            continue
        called.setdefault(w, []).append((kind, ks, place))
        R.check(SAME.get(kind, kind) == n, "%s:kind:%s" % (name, w),
                "%s calls %s of the %s part" % (name, kind, w), *place)
        for k in ks:
            vs = list(key_views(k))
            if vs and not cp:
                segment_rules(R, name, w, vs[-1][2], vs[-1][3], place,
                              "of the argument")
            elif not vs and not cp and n == "rightHandSide" and \
                    k[0] == "path" and k[1][0].startswith("arg:"):
                R.bad("%s:all:%s" % (name, w), "%s gives the whole vector to "
                      "the %s part" % (name, w), *place)
        if cp:
            roots = [k[1][0] for k in ks if k[0] == "path"]
            R.check(any(r == cp for r in roots) or not roots,
                    "%s:arg:%s" % (name, w), "%s looks for another constraint "
                    "in the %s part" % (name, w), *place)
    if not called and n != "rightHandSideSize":
        R.unclear("%s: halves not resolved" % name)
        return
    for k, s, v in outs:
        if k != "ret":
            continue
        R.count("returning paths")
        done = s.cl.get("called", frozenset({frozenset()}))
        if n == "rightHandSideSize":
            ws = sizes_in(v.k()) if isinstance(v, V) else set()
            if v.const is not NOC or len(ws) == 1:
                R.bad("%s:half" % name, "%s counts the %s part only" % (
                    name, "/".join(sorted(ws)) or "null"), f["file"],
                    f["line"])
            elif ws and v.k()[0] == "bin":
                R.check(v.k()[1] == "+", "%s:sum" % name, "%s is not the sum "
                        "of the two parts" % name, f["file"], f["line"])
            continue
        if not cp:
            for w in ("implicit", "explicit"):
                R.check(all(w in t for t in done), "%s:missing:%s" % (name, w),
                        "%s returns on a path that leaves out the %s part" % (
                            name, w), f["file"], f["line"])
            continue
        if n == "isConstraintSatisfied" or not isinstance(v, V):
            continue
        got = [w for w in ("implicit", "explicit")
               if s.facts.get(("part", w)) is True]
        asked = {w for t in done for w in t}
        if v.const is True:
            R.check(got, "%s:true" % name, "%s reports that it found the "
                    "constraint on a path where neither part did" % name,
                    f["file"], f["line"])
        elif v.const is False:
            R.check(not got, "%s:false" % name, "%s reports that it did not "
                    "find the constraint although the %s part did" % (
                        name, "/".join(got)), f["file"], f["line"])
            if "explicit" not in asked or "implicit" not in asked:
                cast = any(x[0] == "nonnull" and not y
                           for x, y in s.facts.items())
                miss = sorted({"explicit", "implicit"} - asked)
                R.check(cast or "implicit" in miss and False or not miss,
                        "%s:asked" % name, "%s reports that it did not find "
                        "the constraint without asking the %s part" % (
                            name, "/".join(miss)), f["file"], f["line"])
    if cp and n != "isConstraintSatisfied":
        for w in ("implicit", "explicit"):
            R.check(w in called, "%s:never:%s" % (name, w), "%s never asks the "
                    "%s part" % (name, w), f["file"], f["line"])
