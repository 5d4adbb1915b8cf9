"""C10: iterates stay within the joint bounds."""
from ..interp import Client, Interp, NOC, State, TooBig, V, norm, show_key, \
    show_path
from ..model import short, walk
from ..solver import (BS, HI, SAT, SolverClient, entry_functions, mentions)
from ..util import NS, base

EXPLAIN = """Typestate analysis of the configuration on all paths of the solve
functions and of integrate: after a group increment the object must go through
saturate before it is evaluated, used as an iterate or handed back. The
saturation functions themselves are analysed path by path: each coefficient
they write is the bound or the input coefficient of the same index, under
comparisons on the path that place it within the bounds, the saturation
recorded has the sign of the bound hit and is stored at the velocity index
that goes with the configuration index, and the value returned tells whether
something was clamped."""


class Within(SolverClient):
    def __init__(self, M, cls, moves=False):
        SolverClient.__init__(self, M, cls, moves)
        self.bad = {}
        self.n = 0
        self.stale = {}
        self.ndir = 0

    def evaluated(self, I, st, p, node):
        self.n += 1
        if p in self.get(st, "raw"):
            self.bad.setdefault(node.get("l"), (p, I.stack[-1][0],
                                                node.get("l")))

    def drop(self, st, p, keep=()):
        SolverClient.drop(self, st, p, keep)
        v = self.get(st, "S")
        w = frozenset(x for x in v if not norm(x)[:len(norm(p))] == norm(p))
        if w != v:
            self.put(st, "S", w)

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] != "ctor":
            f = node.get("f") or ""
            c = f.rsplit("::", 1)[0].split("<")[0]
            n = base(f)
            if c in (HI, BS) and n == "computeSaturation" and avs and \
                    avs[0].path is not None:
                self.put(st, "S", self.get(st, "S") | {norm(avs[0].path)})
            if c in (HI, BS) and n == "computeDescentDirection":
                self.ndir += 1
                if not self.get(st, "S"):
                    self.stale.setdefault(node.get("l"), (I.stack[-1][0],
                                                          node.get("l")))
        return SolverClient.pre_call(self, I, st, node, ov, avs)


def run(R, M):
    R.rule("a configuration to which a step was added goes through the "
           "saturation before it is evaluated, iterated on or returned")
    R.rule("the step is computed with the saturation of the current iterate")
    R.rule("saturate writes, for each index, the bound or the input "
           "coefficient of that index, within the bounds")
    R.rule("saturation flags have the sign of the bound hit, at the velocity "
           "index of the coefficient; saturate returns whether one was hit")
    for K, f in entry_functions(M):
        if sum(1 for _ in walk(f["body"])) < 25:
            continue
        solver_function(R, M, K, f, 0, False)
    for K in (HI, BS):
        for f in M.methods(K, "integrate"):
            if f.get("body") is not None and len(f["ps"]) == 3:
                solver_function(R, M, K, f, 2, True)
    flags(R, M)
    for K in [SAT + "Base"] + M.descendants(SAT + "Base"):
        for f in M.methods(K, "saturate"):
            if f.get("body") is not None and len(f["ps"]) == 3:
                clamp_rules(R, M, K, f)


def solver_function(R, M, K, f, ip, integ):
    name = "%s<%s>" % (short(f["q"]), (f.get("ta") or "").rsplit("::", 1)[-1])
    c = Within(M, K, moves=integ)
    I = Interp(M, c)
    I.maxsteps = 4000000
    arg = ("arg:" + f["ps"][ip]["n"],)
    try:
        outs = I.run(f, V(("this",), cls=K))
    except TooBig as e:
        R.unclear("%s: %s" % (name, e))
        return
    R.analysed(f)
    R.count("functions")
    R.count("evaluations on paths", c.n)
    for line, (p, g, l) in sorted(c.bad.items(), key=str):
        R.bad("%s:evaluates" % short(f["q"]),
              "%s evaluates the constraints at %s to which a step was added "
              "without applying the saturation" % (name, show_path(p)),
              g["file"], l)
    for line, (g, l) in sorted(c.stale.items(), key=str):
        R.bad("%s:stale" % short(f["q"]),
              "%s computes a step without computing which variables are "
              "saturated at the current iterate" % name, g["file"], l)
    if c.ndir and not c.stale:
        R.ok("%s: saturation known at each step" % name)
    for k, s, v in outs:
        if k != "ret":
            continue
        R.check(arg not in c.get(s, "raw"), "%s:return" % short(f["q"]),
                "%s returns a configuration to which a step was added "
                "without applying the saturation" % name, f["file"],
                f["line"])
        if integ and c.events["move"]:
            R.check(arg in c.get(s, "moved"), "%s:lost" % short(f["q"]),
                    "%s does not return the configuration the step was added "
                    "to" % name, f["file"], f["line"])


class FlagClient(Client):
    """Uses of the saturation flags in computeSaturation."""
    loop_min1 = False

    def __init__(self):
        self.sat = []
        self.reads = []

    def virtual(self, I, st, node, cands, ov, avs):
        return []

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] == "ctor":
            return None
        n = base(node.get("f") or "")
        if n == "saturate" and len(avs) == 3:
            self.sat.append((avs, node, I.stack[-1][0]))
            st.cl = dict(st.cl)
            st.cl["sat"] = frozenset({norm(avs[2].path)}) \
                if avs[2].path else frozenset()
            return [(st, V())]
        return None

    def read(self, I, st, path, node):
        pass


def flags(R, M):
    """computeSaturation queries the saturation at its argument."""
    for f in M.methods(HI, "computeSaturation"):
        if f.get("body") is None:
            continue
        c = FlagClient()
        I = Interp(M, c)
        try:
            outs = I.run(f, V(("this",), cls=HI))
        except TooBig as e:
            R.unclear("computeSaturation: %s" % e)
            continue
        R.analysed(f)
        R.check(bool(c.sat), "computeSaturation:none",
                "computeSaturation does not query the saturation",
                f["file"], f["line"])
        arg = "arg:" + f["ps"][0]["n"]
        for avs, node, g in c.sat:
            if avs[0].path is not None:
                R.check(avs[0].path[0] == arg, "computeSaturation:arg",
                        "computeSaturation queries the saturation at %s, not "
                        "at the configuration given" % show_path(avs[0].path),
                        g["file"], node.get("l"))


# --------------------------------------------------------------- saturations
def last_index(p):
    """(container path, index key) if the path ends with an element."""
    if p and isinstance(p[-1], tuple) and p[-1][0] == "[]" and len(p[-1]) > 1:
        return p[:-1], p[-1][1]
    return None


def elem(k):
    """(container, index) of an element key: x[i], x.coeff(i), x.lower(i)."""
    if k[0] == "path":
        r = last_index(k[1])
        if r is None and k[1] and isinstance(k[1][-1], tuple) and \
                k[1][-1][0] == "#" and len(k[1][-1][2]) == 1:
            return (k[1][:-1] + (k[1][-1][1],), k[1][-1][2][0])
        return r
    if k[0] == "call" and len(k[3]) == 1:
        return ((k[1], k[2]), k[3][0])
    return None


def offset(ix):
    """Last term of a sum, for comparing i and nq + i."""
    if ix[0] == "bin" and ix[1] == "+":
        return {ix[2], ix[3]}
    return {ix}


class Clamp(Client):
    loop_min1 = True

    def __init__(self, out, flag, inp):
        self.out = out
        self.flag = flag
        self.inp = inp
        self.writes = []
        self.flags = []
        self.iters = {}

    def mark(self, st, pos=None):
        cl = dict(st.cl)
        for k in cl:
            if k[0] == "done":
                cl[k] = frozenset({1})
        st.cl = cl

    def on_body(self, I, st, node):
        st.cl = dict(st.cl)
        st.cl[("done", node.get("l"))] = frozenset()

    def on_next(self, I, st, node):
        d = st.cl.get(("done", node.get("l")))
        if d is not None:
            self.iters.setdefault(node.get("l"), {}).setdefault(
                bool(d), I.stack[-1][0])

    def compared(self, I, st, e, a, b):
        if st.cl.get("whole"):
            for k in (a, b):
                if isinstance(k, tuple) and k[:1] == ("path",) and \
                        k[1][0] == self.inp and last_index(k[1]):
                    self.mark(st)

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def track_scal(self, path, v):
        return isinstance(v, bool)

    def write(self, I, st, path, node, how, val=None):
        if path[0] == self.out:
            self.writes.append((st.copy(), path, val, node, how,
                                I.stack[-1][0]))
            if len(path) == 1:
                st.cl = dict(st.cl)
                st.cl["whole"] = frozenset({1})
            else:
                self.mark(st)
        elif path[0] == self.flag:
            self.flags.append((st.copy(), path, val, node, how,
                               I.stack[-1][0]))
            if val is not None and val.const is not NOC and \
                    val.const != 0 and how == "=":
                st.cl = dict(st.cl)
                st.cl["hit"] = frozenset({1})


def order_facts(st, q):
    """(keys known <= q, keys known >= q)."""
    low, high = set(), set()
    for k, v in st.facts.items():
        if k[0] != "cmp" or k[1] not in ("<", "=="):
            continue
        a, b = k[2], k[3]
        if q not in (a, b):
            continue
        if k[1] == "==":
            if v:
                low.add(b if a == q else a)
                high.add(b if a == q else a)
            continue
        if a == q:          # q < b is v
            (high if v else low).add(b)
        else:               # a < q is v
            (low if v else high).add(a)
    return low, high


def clamp_rules(R, M, K, f):
    name = "%s::saturate" % short(K)
    ps = ["arg:" + p["n"] for p in f["ps"]]
    if not all(p["n"] for p in f["ps"]):
        return
    c = Clamp(ps[1], ps[2], ps[0])
    I = Interp(M, c)
    try:
        outs = I.run(f, V(("this",), cls=K))
    except TooBig as e:
        R.unclear("%s: %s" % (name, e))
        return
    R.analysed(f)
    R.count("saturation functions")
    for line, d in sorted(c.iters.items(), key=str):
        if True in d:
            g = d[True]
            R.count("loops over coefficients")
            R.check(False not in d, "%s:skipped" % name, "%s leaves "
                    "coefficients out on a path of the loop" % name,
                    g["file"], line)
    found = {}
    roles = {}          # bound -> {"lower","upper"}
    where = {}
    elems = 0
    for st, p, val, node, how, g in c.writes:
        loc = (g["file"], node.get("l"))
        ix = last_index(p)
        k = val.k() if val is not None else ("?",)
        if ix is None:
            if len(p) == 1 and k[0] == "path" and how == "=":
                R.check(k[1][0] == ps[0] or k[1][0] != ps[1],
                        "%s:whole" % name, "saturated configuration not "
                        "taken from the argument", *loc)
            continue
        i = ix[1]
        elems += 1
        R.count("coefficients written on paths")
        e = elem(k)
        if e is None:
            ks = find_elems(k)
            for b, j in ks:
                R.check(offset(j) & offset(i), "%s:index" % name,
                        "%s writes coefficient %s from index %s of %s" % (
                            name, show_key(i), show_key(j),
                            show_container(b)), *loc)
            infer(k, found)
            if not ks:
                R.unclear("%s: value written not resolved" % name)
            continue
        b, j = e
        q = ("path", (ps[0], ("[]", i)))
        low, high = order_facts(st, q)
        if b == (ps[0],):
            R.check(j == i, "%s:index" % name, "%s writes coefficient %s "
                    "from index %s of the argument" % (
                        name, show_key(i), show_key(j)), *loc)
            for nm, s in (("lower", low), ("upper", high)):
                s = {x for x in s if elem(x)}
                R.check(bool(s), "%s:unbounded" % name,
                        "%s keeps a coefficient it did not compare with its "
                        "%s bound" % (name, nm), *loc)
                for x in s:
                    bound(R, name, roles, where, elem(x), i, nm, loc)
        else:
            if k in high:
                bound(R, name, roles, where, e, i, "upper of q", loc)
                role = "lower"
            elif k in low:
                role = "upper"
            else:
                R.bad("%s:blind" % name, "%s writes %s without having "
                      "compared coefficient %s with it" % (
                          name, show_key(k), show_key(i)), *loc)
                continue
            bound(R, name, roles, where, e, i, role, loc)
    for b, r in found.items():
        if b != (ps[0],):
            roles.setdefault(b, set()).update(r)
            where.setdefault(b, (f["file"], f["line"]))
    names(R, M, K, f, name, roles, where)
    extent(R, name, c.writes)
    for st, p, val, node, how, g in c.flags:
        loc = (g["file"], node.get("l"))
        ix = last_index(p)
        if ix is None or val is None or how != "=":
            continue
        R.count("flags written on paths")
        flag_rules(R, name, st, ps, ix[1], val, roles, loc)
    if elems and plain_returns(f):
        for k, s, v in outs:
            if k != "ret" or v is None or not isinstance(v.const, bool):
                continue
            R.check(v.const == bool(s.cl.get("hit")), "%s:returned" % name,
                    "%s returns %s although %s coefficient was clamped" % (
                        name, v.const,
                        "a" if s.cl.get("hit") else "no"),
                    f["file"], f["line"])


def extent(R, name, writes):
    """Loops over the coefficients start at the first and stop at the last."""
    first = {}
    for st, p, val, node, how, g in writes:
        ix = last_index(p)
        if ix is None:
            continue
        loc = (g["file"], node.get("l"))
        kind = "joints" if joint_of(ix[1]) else (
            "extra" if "nq" in atoms(ix[1], set()) else "plain")
        lits = {x[1] for x in counters(ix[1]) if x[0] == "lit"}
        jl = {x[1] for x in joint_of(ix[1]) if x[0] == "lit"}
        first.setdefault(kind, (set(), set(), set(), set(), loc))
        first[kind][0].update(lits)
        first[kind][1].update(jl)
        first[kind][2].update(x for x in counters(ix[1]) if x[0] == "path")
        first[kind][3].update(x for x in joint_of(ix[1]) if x[0] == "path")
        cs = counters(ix[1]) | joint_of(ix[1])
        for k, v in st.facts.items():
            if k[0] == "cmp" and k[1] == "<" and v and k[2] in cs and \
                    k[3][0] == "bin" and k[3][1] == "-" and \
                    k[3][3][0] == "lit" and k[3][3][1] > 0:
                R.bad("%s:last" % name, "%s leaves out the last "
                      "coefficients (%s < %s)" % (
                          name, show_key(k[2]), show_key(k[3])), *loc)
    for kind, (lits, jl, ps, js, loc) in sorted(first.items()):
        if lits:
            R.check(min(lits) <= 0, "%s:first" % name, "%s leaves out the "
                    "first coefficients of %s" % (name, kind), *loc)
        if jl:
            R.check(min(jl) <= 1, "%s:joint" % name,
                    "%s leaves out the first joints" % name, *loc)


def show_container(b):
    try:
        return show_path(b)
    except Exception:
        return str(b)


def plain_returns(f):
    """The function returns flags, not comparisons."""
    for n in walk(f["body"]):
        if n["k"] == "ret" and n.get("x") is not None:
            for m in walk(n["x"]):
                if m["k"] == "bin" and m["op"] not in ("||", "&&") or \
                        m["k"] in ("call", "cond"):
                    return False
    return True


def find_elems(k):
    out = []

    def rec(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] in ("path", "call"):
            e = elem(x) if len(x) > 1 and isinstance(x[1], (tuple, str)) \
                else None
            if e is not None and not (x[0] == "call" and base(
                    x[1] or "") in ("min", "max", "abs")):
                out.append(e)
                return
        if x[0] == "call":
            for y in x[3]:
                rec(y)
        elif x[0] == "bin":
            rec(x[2])
            rec(x[3])
    rec(k)
    return out


def bound(R, name, roles, where, e, i, role, loc):
    b, j = e
    if role == "upper of q":
        return
    if "extraConfigSpace" in str(b):
        same = j in offset(i) and "nq" not in atoms(j, set())
    else:
        same = j == i
    R.check(same, "%s:index" % name,
            "%s compares or replaces coefficient %s with index %s of %s" % (
                name, show_key(i), show_key(j), show_container(b)), *loc)
    roles.setdefault(b, set()).add(role)
    where.setdefault(b, loc)


def names(R, M, K, f, name, roles, where):
    """A bound plays the role its declaration gives it."""
    want = {}
    for g in M.methods(K, base(K)):
        ps = [p["n"] for p in g["ps"] if p["n"]]
        for it in g.get("inits") or []:
            for n in walk(it.get("x") or {}):
                if n["k"] == "var" and n.get("n") in ps[:2] and \
                        it.get("m") and len(ps) >= 2:
                    want[it["m"]] = ("lower", "upper")[ps.index(n["n"])]
    for b, r in sorted(roles.items(), key=str):
        R.check(len(r) == 1, "%s:roles" % name,
                "%s uses %s both as a lower and as an upper bound" % (
                    name, show_container(b)), *where[b])
        txt = show_container(b).lower()
        w = None
        if "lower" in txt and "upper" not in txt:
            w = "lower"
        elif "upper" in txt and "lower" not in txt:
            w = "upper"
        elif len(b) == 2 and b[0] == "this":
            w = want.get(b[1])
        if w is not None and len(r) == 1:
            R.check(w in r, "%s:swapped" % name,
                    "%s uses %s as the %s bound" % (
                        name, show_container(b), next(iter(r))), *where[b],
                    text="%s is the %s bound" % (show_container(b), w))


def atoms(k, out):
    """Names of the accessors a key mentions."""
    if isinstance(k, tuple) and k:
        if k[0] == "path" and len(k) == 2:
            for x in k[1]:
                if isinstance(x, tuple):
                    if x[0] == "#":
                        out.add(x[1])
                        for y in x[2]:
                            atoms(y, out)
                    elif len(x) > 1:
                        atoms(x[1], out)
                else:
                    out.add(x.split("#")[0])
        elif k[0] == "call":
            out.add(base(k[1] or ""))
            atoms(k[2], out)
            for x in k[3]:
                atoms(x, out)
        else:
            for x in k[1:]:
                atoms(x, out)
    return out


def counters(k):
    """Innermost counter: last plain local or literal of the sum."""
    if k[0] == "bin" and k[1] == "+":
        return counters(k[3]) | counters(k[2])
    if k[0] == "path" and len(k[1]) == 1 or k[0] == "lit":
        return {k}
    if k[0] == "call" and base(k[1] or "") in ("min", "max"):
        s = set()
        for x in k[3]:
            if x[0] in ("path", "lit") and len(counters(x)) == 1:
                s |= counters(x)
        return s
    return set()


def infer(k, roles):
    """max(x, bound) makes a lower bound, min(x, bound) an upper one."""
    if isinstance(k, tuple) and k:
        if k[0] == "call" and base(k[1] or "") in ("min", "max"):
            for x in k[3]:
                e = elem(x) if x[0] in ("path", "call") else None
                if e is not None and e[0][0] != "arg:q":
                    roles.setdefault(e[0], set()).add(
                        "lower" if base(k[1]) == "max" else "upper")
        for x in k[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple):
                    for y in x:
                        infer(y, roles)
                else:
                    infer(x, roles)


def flag_rules(R, name, st, ps, fi, val, roles, loc):
    """Velocity index and sign of one flag write."""
    # the coefficient this flag belongs to: a comparison on the path
    qs = set()
    for k in st.facts:
        if k[0] == "cmp":
            for x in (k[2], k[3]):
                if x[0] == "path" and x[1][0] == ps[0] and last_index(x[1]):
                    qs.add(x)
    own = []
    for q in qs:
        i = last_index(q[1])[1]
        if related(fi, i):
            own.append(q)
    if not own:
        for q in qs:
            i = last_index(q[1])[1]
            if fi != i and fi[0] == "path" and len(fi[1]) == 1:
                continue        # a variable whose value is not known
            if len(qs) == 1:
                R.bad("%s:flag" % name, "%s stores the saturation of "
                      "coefficient %s at %s, which is not the index of its "
                      "velocity" % (name, show_key(i), show_key(fi)), *loc)
        if len(qs) != 1:
            R.unclear("%s: flag not related to a coefficient" % name)
        return
    R.ok("%s: flag %s" % (name, show_key(fi)))
    if len(own) != 1 or val.const is NOC:
        R.unclear("%s: saturation value not resolved" % name)
        return
    low, high = order_facts(st, own[0])
    if not any(roles.get((elem(x) or (None,))[0]) for x in low | high):
        R.unclear("%s: bounds not identified" % name)
        return
    hitlow = any("lower" in roles.get((elem(x) or (None,))[0], ())
                 for x in high)
    hithigh = any("upper" in roles.get((elem(x) or (None,))[0], ())
                  for x in low)
    inside = not hitlow and not hithigh
    v = val.const
    good = (hitlow and v == -1 and not hithigh) or \
        (hithigh and v == 1) or (inside and v == 0)
    R.check(good, "%s:sign" % name,
            "%s records %s for a coefficient %s" % (
                name, v, "at its lower bound" if hitlow else
                "at its upper bound" if hithigh else "within its bounds"),
            *loc)


def related(fi, i):
    """Index fi is a velocity index for configuration index i."""
    # through a table of the object
    if fi[0] == "path" and len(fi[1]) == 3 and fi[1][0] == "this":
        t = last_index(fi[1])
        return t is not None and t[1] == i
    a, b = atoms(fi, set()), atoms(i, set())
    if "idx_q" in a or "nq" in a:
        return False
    if "idx_q" in b or "nq" in b:
        if not ("idx_v" in a or "nv" in a):
            return False
        if "idx_q" in b and fi[0] == "bin" and \
                not any(x in a for x in ("min", "nv")) and \
                not isinstance(fi[3], tuple):
            return False
        if "idx_q" in b and not plain_offset_ok(fi):
            return False
        ci, cf = counters(i), counters(fi)
        if cf and ci and not (cf & ci):
            return False
        # same joint
        return joint_of(fi) == joint_of(i)
    return fi != i and None is not None


def plain_offset_ok(fi):
    """idx_v + j would leave the joint when nq > nv: it must be limited."""
    if fi[0] == "bin" and fi[1] == "+":
        for x in (fi[2], fi[3]):
            if x[0] == "path" and len(x[1]) == 1:
                return False
    return True


def joint_of(k):
    """Index of the joint an idx_q/idx_v key mentions."""
    out = set()

    def rec(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "path" and len(x) == 2:
            for n, y in enumerate(x[1]):
                if isinstance(y, tuple) and y[0] == "[]" and len(y) > 1 and \
                        n > 0 and x[1][n - 1] == "joints":
                    out.add(y[1])
            return
        for y in x[1:]:
            rec(y)
    rec(k)
    return out
