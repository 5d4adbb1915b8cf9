"""C15: a joint that may be empty (the world) is tested before it is
dereferenced; reported pairs of joints are ordered by index, the world first.
"""
from ..interp import Client, Interp, NOC, TooBig, V, deps, norm, show_key, \
    show_path
from ..model import short, walk
from ..util import base

JOINT = "hpp::pinocchio::Joint"
INDEX = JOINT + "::index"
PARENT = JOINT + "::parentJoint"
PAR = ("#", "parentJoint", ())

# Joints that are never empty, by contract of the class: (class of the
# function or of the entry point, member; None for every joint of the class).
ACTUAL = {
    ("ComBetweenFeet", None), ("LockedJoint", None), ("JointFrame", None),
    ("RotationMultiply", None),
    ("DistanceBetweenBodies", "joint1_"),
    ("DistanceBetweenPointsInBodies", "joint1_"),
    ("RelativeTransformation", "joint2_"),
}
# restricted to some entry points
ACTUAL_IN = {
    ("RelativeCom::impl_compute", "joint_"),
    ("RelativeCom::impl_jacobian", "joint_"),
    ("DistanceBetweenBodies::create", "joint2_"),
    ("DistanceBetweenBodies::DistanceBetweenBodies", "joint2_"),
}
# the second joint of these entry points is the one that is computed
SECOND = ("explicit_::RelativePose", "explicit_::RelativeTransformation")


def run(R, M):
    R.rule("On every path, an expression that dereferences a pointer to a "
           "joint is reached only after the pointer was found not to be "
           "empty, unless the class requires an actual joint there")
    R.rule("In functions of two joints at most one of them is empty: the "
           "second one may be used untested where the first one is empty")
    R.rule("A pair of joints returned is in the order of the indices, an "
           "empty joint having index 0 and coming first, and does not hold "
           "the same joint twice")
    R.assume("Joint::index(joint) accepts an empty joint; the parent of a "
             "joint has a smaller index; a null joint does not compare as a "
             "joint; assertions hold")
    S = Scope(M)
    seen = set()
    for f in S.roots:
        seen |= derefs(R, M, S, f)
    for f in sorted(S.direct, key=lambda f: f["q"]):
        if f["q"] not in seen and base(f["q"]) != "serialize":
            seen |= derefs(R, M, S, f, True)
    for f in M.funcs:
        if f.get("body") is not None and pair_of_joints(f):
            ordered(R, M, S, f)


def pair_of_joints(f):
    return "RelPoseBetween" in f["q"]


def own(f):
    return f.get("body") is not None and not f["q"].startswith("Eigen::")


class Scope:
    """Functions that matter: those that handle joints, and those that call
    them directly or not."""

    def __init__(self, M):
        fs = [f for f in M.funcs if own(f)]
        calls, sites = {}, {}
        self.direct = []
        rel = set()
        for f in fs:
            cs = calls.setdefault(f["u"], set())
            d = False
            for n in walk([f["body"], f.get("inits") or []]):
                if n.get("p") == JOINT:
                    d = True
                if n["k"] in ("call", "ctor") and not (
                        n.get("virt") and not n.get("qual")):
                    for g in M.callees(n):
                        cs.add(g["u"])
            if d:
                rel.add(f["u"])
                if any(True for n in walk([f["body"], f.get("inits") or []])
                       if is_deref(n)):
                    self.direct.append(f)
        ch = True
        while ch:
            ch = False
            for u, cs in calls.items():
                if u not in rel and cs & rel:
                    rel.add(u)
                    ch = True
        self.rel = rel
        called = set()
        for u, cs in calls.items():
            called |= cs - {u}
        self.roots = sorted(
            (f for f in fs if f["u"] in rel and
             (f["u"] not in called or f.get("ov") or is_create(f))),
            key=lambda f: (f["q"], str(f.get("cta")), f["line"]))


def is_create(f):
    return base(f["q"]).startswith("create")


def pointer(e):
    """Pointer operand of a dereference."""
    if e["k"] == "un" and e.get("op") == "*":
        return e["x"]
    if e["k"] == "call" and e.get("op") in ("->", "*"):
        if len(e.get("a") or ()) + (1 if e.get("o") else 0) == 1:
            return e.get("o") or e["a"][0]
    return None


def is_deref(e):
    x = pointer(e)
    return x is not None and x.get("p") == JOINT


class Null(Client):
    def __init__(self, S, light=True):
        self.S = S
        self.light = light
        self.sites = {}

    def inline(self, I, st, node, f, ov, avs):
        if f["u"] in self.S.rel:
            return len(I.stack) < 1 or not is_create(f)
        if self.light or not own(f):
            return False
        return sum(1 for _ in walk(f["body"])) < 60

    def extern(self, I, st, node, ov, avs):
        f = node.get("f", "")
        if f == INDEX:
            return [(st, V(key=("call", f, ov.k() if ov else ("?0",),
                                tuple(a.k() for a in avs))))]
        if f == PARENT and ov is not None and ov.path is not None:
            # the ancestors of a joint are one object
            p = ov.path
            if isinstance(p[-1], tuple) and p[-1][:2] == PAR[:2]:
                k = ("nonnull", ("path", p))
                st.facts.pop(k, None)
                st.cl = {a: b for a, b in st.cl.items() if a != ("nn", k[1])}
                return [(st, V(p))]
            return [(st, V(p + (PAR,)))]
        return None

    def track_fact(self, key):
        return isinstance(key, tuple) and key[0] == "nonnull"

    def track_scal(self, path, v):
        return v is None or isinstance(v, bool) and len(path) == 1

    # what is known about pointers is only lost when they are assigned
    def decided(self, I, st, key, v):
        if key[0] == "nonnull":
            st.cl = dict(st.cl)
            st.cl[("nn", key[1])] = v

    def write(self, I, st, path, node, how, val=None):
        for k in [k for k in st.cl if k[0] == "pv" and
                  k[1][:len(path)] == path[:len(k[1])]]:
            st.cl = {a: b for a, b in st.cl.items() if a != k}
        if val is not None and how in ("decl", "=") and pair_key(val.key):
            st.cl = dict(st.cl)
            st.cl[("pv", path)] = val.key
        ks = [k for k in st.cl if k[0] == "nn"]
        if not ks:
            return
        n = norm(path)
        for k in ks:
            q = norm(k[1][1]) if k[1][0] == "path" else ()
            if q == n or how in ("=", "decl", "move") and q[:len(n)] == n:
                st.cl = dict(st.cl)
                st.cl.pop(k)
            else:
                st.facts[("nonnull", k[1])] = st.cl[k]

    def rename(self, st, old, new):
        for k in [k for k in st.cl if k[0] == "pv" and k[1][0] == old]:
            st.cl = dict(st.cl)
            st.cl[("pv", (new,) + k[1][1:])] = st.cl.pop(k)

    def post_call(self, I, st, node, ov, avs, res):
        pre = "L%d." % (I.depth + 1)
        ks = [k for k in st.cl if k[0] == "nn" and
              any(x[0].startswith(pre) for x in deps(k[1]))]
        if ks:
            st.cl = {k: v for k, v in st.cl.items() if k not in ks}

    def deref(self, I, st, v, e):
        x = pointer(e)
        if x is None or x.get("p") != JOINT:
            return
        nn = known(st, v)
        if nn is not True and self.second(I, st, v):
            nn = True
        f = I.stack[-1][0]
        self.sites.setdefault((f["q"], e.get("l"), v.k()), {}).setdefault(
            nn, (f["file"], e.get("l")))

    def second(self, I, st, v):
        """joint2 where there is no joint1."""
        if v.path is None or not isinstance(v.path[-1], str):
            return False
        for a, b in (("joint2", "joint1"), ("joint2_", "joint1_")):
            if v.path[-1] == a:
                k = ("path", v.path[:-1] + (b,))
                return relative(I) is False or st.facts.get(
                    ("nonnull", k), st.cl.get(("nn", k))) is False
        return False


def relative(I):
    """Whether the class at hand has a first joint."""
    for f, _ in I.stack:
        n = short(f.get("cls") or "")
        t = str(f.get("cta") or "").split(",")[0].strip()
        if n == "GenericTransformation" and t.isdigit():
            return bool(int(t) & 1)
        if n in ("GTDataBase", "GenericTransformationModel") and \
                t in ("true", "false"):
            return t == "true"
    return None


def known(st, v):
    if v.const is None:
        return False
    if v.cls:
        return True
    k = ("nonnull", v.k())
    if k in st.facts:
        return st.facts[k]
    return st.cl.get(("nn", v.k()))


def actual(M, root, q, k):
    """The contract says that this joint is never empty."""
    if k[0] != "path":
        return False
    p = k[1]
    last = [x for x in p if isinstance(x, str)][-1]
    if last == "first":
        return True             # surfaces of the object that is computed
    if p[0].startswith("T") or p[0].startswith("C"):
        return True
    for f in (short(root["q"]), short(q)):
        parts = f.split("::")
        cls = parts[-2] if len(parts) > 1 else ""
        if (cls, None) in ACTUAL or (cls, last) in ACTUAL:
            return not any(isinstance(x, tuple) for x in p) or last == "lhs_"
        if ("::".join(parts[-2:]), last) in ACTUAL_IN:
            return True
    if len(p) == 1 and p[0].startswith("arg:") and \
            short(root["q"]).startswith(SECOND):
        js = [x["n"] for x in root["ps"] if x.get("p") == JOINT]
        return p[0][4:] in js[1:]
    return False


def derefs(R, M, S, f, helper=False):
    c = Null(S)
    I = Interp(M, c)
    I.maxsteps = 300000
    try:
        I.run(f)
    except TooBig as e:
        R.unclear("%s: %s" % (short(f["q"]), e))
        return {f["q"]}
    if c.sites:
        R.analysed(f)
    for (q, line, k), st in sorted(c.sites.items(), key=str):
        R.count("dereferences of a joint")
        bad = [x for x in (False, None) if x in st]
        if not bad or actual(M, f, q, k) or helper and k[0] == "path" and \
                k[1][0].startswith("arg:"):
            R.ok("%s:%s %s" % (short(q), line, show_key(k)))
            continue
        R.bad("%s:%s:%s" % (short(q), show_key(k), base(f["q"])),
              "%s dereferences %s, which may be empty%s%s" % (
                  short(q), show_key(k), " and was found to be" if
                  bad[0] is False else ", without a test",
                  "" if q == f["q"] else ", called from " + short(f["q"])),
              *st[bad[0]])
    return I.inlined | {f["q"]}


# ------------------------------------------------------------ order of pairs
def pair_key(k):
    """Keys of the members of a pair."""
    if not isinstance(k, tuple) or not k:
        return None
    if k[0] == "ctor" and k[1].startswith("std::pair") and len(k[2]) == 2:
        return k[2]
    if k[0] == "call" and k[1] == "std::make_pair" and len(k[3]) == 2:
        return k[3]
    if k[0] == "init" and len(k[1]) == 2:
        return k[1]
    return None


class Pairs(Null):
    def __init__(self, S):
        Null.__init__(self, S, False)
        self.places = {}
        self.direct = {}     # (line, keys) of pairs returned at once -> orders
        self.rets = {}

    def returned(self, f):
        """Nodes of the values a function returns."""
        if f["u"] not in self.rets:
            out = set()
            for n in walk(f.get("body")):
                x = n.get("x") if n["k"] == "ret" else None
                todo = [x] if x else []
                while todo:
                    x = todo.pop()
                    out.add(id(x))
                    if x["k"] in ("cast", "paren"):
                        todo.append(x["x"])
                    elif x["k"] == "cond":
                        todo += [x["x"], x["y"]]
                    elif x["k"] == "ctor" and (x.get("copy") or
                                               x.get("elid")):
                        todo += x.get("a", [])
            self.rets[f["u"]] = out
        return self.rets[f["u"]]

    def virtual(self, I, st, node, cands, ov, avs):
        return []

    def pre_call(self, I, st, node, ov, avs):
        f = node.get("f", node.get("c", ""))
        if len(avs) == 2 and (f.startswith("std::pair") or
                              f == "std::make_pair"):
            self.note(I, st, node, avs)
        return None

    def note(self, I, st, node, avs):
        ks = tuple(a.k() for a in avs)
        st.cl = dict(st.cl)
        r = st.cl[("ord", ks)] = self.order(st, avs)
        f = I.stack[-1][0]
        if len(I.stack) == 1 and id(node) in self.returned(f):
            self.direct.setdefault(ks, set()).add(r)
        self.places[ks] = (I.stack[-1][0]["file"], node.get("l"))

    def order(self, st, avs):
        a, b = avs
        ka, kb = a.k(), b.k()
        na, nb = known(st, a), known(st, b)
        if na is False:
            return True
        if ka == kb:
            return "twice"
        if kb[0] == "path" and ka[0] == "path" and len(ka[1]) == \
                len(kb[1]) + 1 and ka[1][:-1] == kb[1] and \
                ka[1][-1][:2] == PAR[:2]:
            return True
        xs, ys = idx(ka, na), idx(kb, nb)
        if nb is False and na is True:
            xs.append(("lit", -1))     # an actual joint is not the world
        res = None
        other = False
        for k, v in st.facts.items():
            if k[0] != "cmp" and k[0] != "truth":
                continue
            if k[0] == "cmp" and k[1] == "<":
                if k[2] in xs and k[3] in ys:
                    if v:
                        return True
                    res = "wrong"
                    continue
                if k[2] in ys and k[3] in xs:
                    if not v:
                        return True
                    res = "wrong"
                    continue
            if k[0] == "cmp" and k[1] == "==" and v and (
                    k[2] in xs and k[3] in ys or k[2] in ys and k[3] in xs):
                return True
            if any(mentions(k, x) for x in (ka, kb)) or k[0] == "truth":
                other = True
        if res:
            return res
        if nb is False or not other:
            return "none"
        return None


def mentions(k, x):
    if k == x:
        return True
    return isinstance(k, tuple) and any(mentions(y, x) for y in k)


def idx(k, nn):
    """Keys of the index of a joint."""
    out = [("call", INDEX, k, ()), ("call", INDEX, ("?0",), (k,))]
    if nn is False:
        out.append(("lit", 0))
    return out


def ordered(R, M, S, f):
    name = short(f["q"])
    c = Pairs(S)
    I = Interp(M, c)
    I.maxsteps = 300000
    try:
        outs = I.run(f)
    except TooBig as e:
        R.unclear("%s: %s" % (name, e))
        return
    R.analysed(f)
    found = {}
    for ks, rs in c.direct.items():
        found.setdefault(ks, set()).update(rs)
    for kind, s, v in outs:
        if kind != "ret" or not isinstance(v, V):
            continue
        key = v.key
        if key is None and v.path is not None:
            key = s.cl.get(("pv", v.path))
        ks = pair_key(key)
        if ks is None or ks in c.direct:
            continue
        r = s.cl.get(("ord", ks))
        if r is not True:
            r2 = c.order(s, [of(k) for k in ks])
            r = r2 if r is None or r2 in (True, "wrong") else r
        found.setdefault(ks, set()).add(r)
    for ks, rs in sorted(found.items(), key=str):
        for r in sorted(rs, key=str):
            R.count("pairs of joints returned")
            if r is None:
                R.unclear("%s: order of %s" % (name, show_key(("init", ks))))
                continue
            R.check(r is True, "%s:%s" % (name, r), "%s returns (%s, %s)%s" % (
                name, show_key(ks[0]), show_key(ks[1]),
                {"wrong": " where the second one has the smaller index",
                 "twice": ", twice the same joint",
                 "none": " in whatever order they come"}.get(r, "")),
                *c.places.get(ks, (f["file"], f["line"])))
    if not found:
        R.unclear("%s: no pair recognised" % name)


def of(k):
    if k[0] == "lit":
        return V(const=k[1])
    return V(k[1]) if k[0] == "path" else V(key=k)
