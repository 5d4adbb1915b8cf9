"""Running offsets: which part of a vector each iteration of a loop uses, and
by how much the offset advances."""
from .interp import SCALARS, Client, norm, show_key, show_path
from .units import Units

ROWV = {"segment": (0, 1), "head": (None, 0), "tail": ("end", 0),
        "middleRows": (0, 1), "topRows": (None, 0), "bottomRows": ("end", 0)}
COLV = {"middleCols": (0, 1), "leftCols": (None, 0), "rightCols": ("end", 0)}
ZERO = ("lit", 0)
END = ("end",)


def parts(x):
    """View selector -> [(axis, start key, length key)]."""
    n = x[1]
    args = [a for a in x[2] if not (isinstance(a, tuple) and a[:1] == ("ta",))]
    ta = [a for a in x[2] if isinstance(a, tuple) and a[:1] == ("ta",)]
    fixed = None
    if ta:
        try:
            fixed = ("lit", int(str(ta[0][1]).split(",")[0]))
        except ValueError:
            pass
    for tab, axis in ((ROWV, "r"), (COLV, "c")):
        if n in tab:
            s, l = tab[n]
            if l < len(args):
                length = args[l]
            elif fixed is not None:
                length = fixed
            else:
                return []
            start = ZERO if s is None else END if s == "end" else args[s]
            return [(axis, start, length)]
    if n == "block" and len(args) == 4:
        return [("r", args[0], args[2]), ("c", args[1], args[3])]
    return []


def views(path):
    """(container path, axis, start, length) of the views in a path."""
    for i, x in enumerate(path):
        if not isinstance(x, tuple):
            continue
        if x[0] == "#" and len(x) > 2:
            for a, s, n in parts(x):
                yield path[:i], a, s, n
            for k in x[2]:
                yield from key_views(k)
        elif x[0] == "[]" and len(x) > 1:
            yield from key_views(x[1])


def key_views(k):
    if not isinstance(k, tuple) or not k:
        return
    if k[0] == "path":
        yield from views(k[1])
        return
    for x in k[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    yield from key_views(y)
            else:
                yield from key_views(x)


def locvar(k):
    """Local scalar a key denotes."""
    if isinstance(k, tuple) and k[:1] == ("path",) and len(k[1]) == 1 and \
            isinstance(k[1][0], str) and "#" in k[1][0]:
        return k[1][0]
    return None


def selectors(k, out=None):
    """Element selectors (container, index key) in a key."""
    out = set() if out is None else out
    if isinstance(k, tuple):
        if k and k[0] == "path":
            p = k[1]
            for i, x in enumerate(p):
                if isinstance(x, tuple) and x[0] == "[]" and len(x) > 1:
                    out.add((norm(p[:i]), x[1]))
        for x in k:
            selectors(x, out)
    return out


class Layout(Client):
    """st.cl[("tr", loop)]: the traces (tuples of events) of the current
    iteration of the loop that lead to the state."""
    loop_min1 = True

    def __init__(self):
        self.uses = {}      # (container, axis, start, len) -> place
        self.iters = {}     # loop node id -> {trace: place}
        self.adv = {}       # local -> {val key: place}
        self.sets = {}      # local -> {val key}
        self.loops = {}
        self.fixed = {}     # loop -> uses seen in rounds >= 2
        self.round = {}
        self.vects = {}     # local vector -> {key of the initial value}

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def place(self, I, node):
        return (I.stack[-1][0].get("file"), (node or {}).get("l"))

    def event(self, st, ev):
        ks = [k for k in st.cl if k[0] == "tr"]
        if not ks:
            return
        cl = dict(st.cl)
        for k in ks:
            cl[k] = frozenset(t if ev in t else t + (ev,) for t in cl[k])
            if len(cl[k]) > 40:
                cl[k] = frozenset(list(cl[k])[:40])
        st.cl = cl

    def path(self, I, st, p, node):
        for c, a, s, n in views(p):
            self.use(I, st, c, a, s, n, node)

    def key(self, I, st, k, node):
        for c, a, s, n in key_views(k):
            self.use(I, st, c, a, s, n, node)

    def use(self, I, st, c, a, s, n, node):
        u = (c, a, s, n)
        self.uses.setdefault(u, self.place(I, node))
        self.event(st, ("use",) + u)

    def read(self, I, st, path, node):
        self.path(I, st, path, node)

    def copied(self, I, st, dst, src, node):
        self.path(I, st, dst, node)
        self.path(I, st, src, node)

    def write(self, I, st, path, node, how, val=None):
        self.path(I, st, path, node)
        if val is not None:
            self.key(I, st, val.k(), node)
        if len(path) != 1 or "#" not in path[0]:
            return
        k = val.k() if val is not None else None
        if how == "+=" and k is not None:
            self.adv.setdefault(path[0], {}).setdefault(
                k, self.place(I, node))
            self.event(st, ("adv", path[0], k))
        elif how in ("=", "decl") and k is not None:
            if how == "decl" and node.get("r") not in SCALARS:
                self.vects.setdefault(path[0], set()).add(k)
            if k[0] == "bin" and k[1] == "+" and ("path", path) in k[2:]:
                o = k[3] if k[2] == ("path", path) else k[2]
                self.adv.setdefault(path[0], {}).setdefault(
                    o, self.place(I, node))
                self.event(st, ("adv", path[0], o))
            else:
                self.sets.setdefault(path[0], {}).setdefault(
                    k, self.place(I, node))
                self.event(st, ("set", path[0], k))

    def on_body(self, I, st, node):
        k = ("tr", len(I.stack), node.get("l"))
        st.cl = dict(st.cl)
        st.cl[k] = frozenset({()})

    def on_next(self, I, st, node):
        k = ("tr", len(I.stack), node.get("l"))
        for t in st.cl.get(k, ()):
            self.iters.setdefault(k, {}).setdefault(t, (
                I.stack[-1][0].get("file"), node.get("l"),
                I.stack[-1][0]["q"]))
        st.cl = {x: y for x, y in st.cl.items() if x != k}

    def units(self):
        """Units of the local scalars that offsets are kept in."""
        local = {}
        for _ in range(3):
            U = Units(local, self.vects)
            new = {}
            for d in (self.adv, self.sets):
                for v, ks in d.items():
                    for k in ks:
                        u = U.of(k)
                        if u:
                            new.setdefault(v, set()).add(u)
            local = new
        return Units(local, self.vects)


def problems(c, role=None):
    """Definite mistakes: (key, message, place). role: root path -> unit."""
    U = c.units()
    out = []
    seen = set()

    def bad(key, msg, place):
        if (key, place) not in seen:
            seen.add((key, place))
            out.append((key, msg, place))

    def cunit(p):
        if role and p and p[0] in role and len(norm(p)) == 1:
            return role[p[0]]
        return U.vect(p)
    names = {"q": "configuration", "v": "tangent", "mix": "mixed"}
    for (p, a, s, n), place in sorted(c.uses.items(), key=str):
        us, un = U.of(s), U.of(n)
        uc = cunit(p) if a == "r" else None
        what = show_path(p)
        if us and un and us != un:
            bad("offset:%s" % what.split(".")[-1],
                "%s is addressed at a %s offset (%s) for a %s length (%s)" % (
                    what, names[us], show_key(s), names[un], show_key(n)),
                place)
        elif uc and un and un != uc:
            bad("length:%s" % what.split(".")[-1],
                "a %s length (%s) is taken from %s, which holds %s "
                "coefficients" % (names[un], show_key(n), what, names[uc]),
                place)
        elif uc and us and us != uc:
            bad("start:%s" % what.split(".")[-1],
                "%s, which holds %s coefficients, is addressed at a %s offset"
                " (%s)" % (what, names[uc], names[us], show_key(s)), place)
    nloops = 0
    for loop, traces in sorted(c.iters.items(), key=str):
        nloops += 1
        for t, place in traces.items():
            adv = {}
            for e in t:
                if e[0] == "adv":
                    adv.setdefault(e[1], []).append(e[2])
            sets = {e[1] for e in t if e[0] == "set"}
            for e in t:
                if e[0] != "use":
                    continue
                v = locvar(e[3])
                if v is None or v in sets or v not in c.adv:
                    continue
                if v not in adv:
                    # advanced in this loop on other paths?
                    if any(f[0] == "adv" and f[1] == v for t2 in traces
                           for f in t2):
                        bad("advance:%s" % show_path(e[1]).split(".")[-1],
                            "an iteration that uses %s at offset %s ends "
                            "without advancing the offset" % (
                                show_path(e[1]), v.split("#")[0]),
                            place[:2])
                    continue
                a = adv[v]
                if len(a) == 1 and a[0] != e[4]:
                    ua, un = U.of(a[0]), U.of(e[4])
                    if ua and un and ua != un:
                        bad("step:%s" % show_path(e[1]).split(".")[-1],
                            "%s is used by steps of %s (%s) but the offset "
                            "advances by %s (%s)" % (
                                show_path(e[1]), show_key(e[4]), names[un],
                                show_key(a[0]), names[ua]),
                            c.adv[v].get(a[0], place[:2]))
    return out, nloops
