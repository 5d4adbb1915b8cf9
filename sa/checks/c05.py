"""C05: robot functions read kinematics of the requested configuration."""
from .. import kin
from ..interp import Client, Interp, V, norm, deps, TooBig, covers, overlap, \
    show_path
from .. import stale
from ..model import short, walk
from ..util import evaluations, tag, argname, NS, base

EXPLAIN = """Typestate analysis of the robot data on every path of every
value and Jacobian evaluation: setting the configuration of the robot (shared
or private copy) from the argument moves its data to 'configured', forward
kinematics adds the quantities its flags select, and each read of a placement,
a joint Jacobian, a centre of mass or a geometry requires the matching
quantity to be present since the last configuration. Results kept from an
earlier call may be returned only under a test that the argument is the one
they were computed for, and all of them are renewed together."""

NAMES = {1: "joint placements", 2: "joint Jacobians",
         16: "the centre of mass"}


class KinClient(Client):
    loop_min1 = True
    novirt = False

    def __init__(self, arg):
        self.arg = arg
        self.bad = {}
        self.nread = 0
        self.loc = {}

    # --- values derived from the argument
    def classes(self, st, v):
        """Where a value comes from: 'arg', 'cur' (configuration read back
        from the robot), 'this' (other data of the function), '?'."""
        out = set()
        if v is None:
            return {"?"}
        k = v.k()
        if mentions(k, "currentConfiguration"):
            out.add("cur")
        ps = set(deps(k))
        if v.path is not None:
            ps.add(v.path)
            if mentions(("path", v.path), "currentConfiguration"):
                out.add("cur")
        if out:
            return out
        for p in ps:
            n = norm(p)
            if p[0] == self.arg:
                out.add("arg")
            elif p[0] == "this":
                m = n[:2]
                got = [c for c, q in st.cl.get("der", ()) if q == m]
                out |= set(got) or {"this"}
            elif p[0][0] in "LRCNT":
                out |= self.loc.get(n[0], {"?"})
        return out or {"?"}

    def derived(self, st, v, dev):
        c = self.classes(st, v)
        if "arg" in c or "?" in c:
            return True
        return "cur" in c and st.cl.get(("kin", dev)) is not None

    def note(self, st, path, c):
        n = norm(path)
        if n[0] == "this":
            add = {(x, n[:2]) for x in c if x in ("arg", "cur")}
            if add:
                st.cl = dict(st.cl)
                st.cl["der"] = st.cl.get("der", frozenset()) | add
        elif n[0][0] in "LRCNT":
            self.loc.setdefault(n[0], set()).update(c)

    def write(self, I, st, path, node, how, val=None):
        if how == "alias" or path[0].startswith("arg:"):
            return
        if val is None or val.path is None and not deps(val.k()):
            if how != "decl":
                self.note(st, path, {"?"} if path[0] != "this" else set())
            return
        self.note(st, path, self.classes(st, val))

    def copied(self, I, st, dst, src, node):
        self.note(st, dst, self.classes(st, V(src)))

    def rename(self, st, old, new):
        if old in self.loc:
            self.loc.setdefault(new, set()).update(self.loc[old])

    def virtual(self, I, st, node, cands, ov, avs):
        if len(cands) == 1:
            return cands
        if not cands or len(cands) > 24 or self.novirt:
            return []
        if not I.M.isa(cands[0].get("cls") or "",
                       NS + "CalculusBaseAbstract"):
            return []
        if sum(1 for g, n in I.stack if n is not None and n.get("virt") and
               I.M.isa(g.get("cls") or "",
                       NS + "CalculusBaseAbstract")) > 0:
            return []
        return cands

    def inline(self, I, st, node, f, ov, avs):
        return id(f) in kin_reach(I.M) or small(f)

    def track_fact(self, key):
        return key[0] == "nonnull" and key[1][0] == "path" and \
            len(key[1][1]) == 2 or (
            key[0] == "cmp" and key[1] == "==" and
            any(p[0] == self.arg for p in deps(key)))

    # --- the memo tests
    def decided(self, I, st, key, value):
        if key[0] == "cmp" and key[1] == "==" and len(I.stack) >= 1:
            m = self.memo_of(key)
            if m is not None and value and \
                    ("cur", m[:2]) in st.cl.get("der", ()):
                # the robot already is at the argument
                st.cl = dict(st.cl)
                st.cl[("kin", "shared")] = 0x10000

    def memo_of(self, key):
        ps = [k[1] for k in key[2:4] if k[0] == "path"]
        a = [p for p in ps if p[0] == self.arg]
        m = [p for p in ps if p[0] == "this"]
        if a and m:
            return norm(m[0])
        return None

    def report(self, I, node, key, msg):
        f = I.stack[-1][0]
        if key not in self.bad:
            self.bad[key] = (msg, f["file"], node.get("l"), [
                "%s:%s" % (g["q"], (n or {}).get("l") if n else g["line"])
                for g, n in I.stack])

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] != "call":
            return None
        ev = kin.event(node, ov, avs)
        if ev is None:
            return None
        known = {k[1] for k in st.cl if isinstance(k, tuple) and
                 k[0] == "kin"}
        dev = kin.device_key(ev, known)
        cur = st.cl.get(("kin", dev))
        kind = ev[0]
        where = base(I.stack[0][0]["q"])
        if kind == "config":
            st.cl = dict(st.cl)
            v = ev[3][0]
            if not self.derived(st, v, dev):
                self.report(I, node, "config:%s" % where,
                            "%s sets the robot to %s, which is not derived "
                            "from its argument" % (where, show(v)))
                st.cl[("kin", dev)] = 0x10000
            else:
                st.cl[("kin", dev)] = 0x10000
            return None
        if kind == "fk":
            fl = ev[3]
            st.cl = dict(st.cl)
            if cur is None:
                if self.exempt(st):
                    return None
                self.report(I, node, "fk:%s" % where,
                            "%s computes the kinematics of a robot it has "
                            "not set to its argument" % where)
                cur = 0x10000
            st.cl[("kin", dev)] = cur | (0xffff if fl is None else fl)
            return None
        if kind in ("read", "com", "geom", "comread"):
            if self.exempt(st):
                return None
            need = ev[3] if kind in ("read",) else 1
            if kind == "comread":
                need = 0x20000 if ev[3] else 0
                if any(I.M.isa(g.get("cls") or "",
                               NS + "CalculusBaseAbstract") or
                       I.M.isa(g.get("cls") or "", NS + "CalculusBase")
                       for g, _ in I.stack):
                    need = 0
                elif ev[3] & 2:
                    need |= 0x40000
            self.nread += 1
            if cur is None:
                self.report(I, node, "unset:%s:%s" % (where, dev_name(dev)),
                            "%s reads %s of a robot it has not set to its "
                            "argument" % (where, " and ".join(NAMES[b] for b in (1, 2) if (need or 1) & b)
                                          if kind != "comread" else
                                          "the centre of mass"))
            else:
                miss = need & ~cur
                if kind == "com" and ev[3] is not None and ev[3] & 2 and \
                        not cur & 2 and ev[3] != 0xffff:
                    pass
                if miss:
                    what = [NAMES[b] for b in (1, 2) if miss & b] + \
                        (["the centre of mass"] if miss & 0x60000 else [])
                    self.report(I, node, "missing:%s:%s" %
                                (where, ",".join(what)),
                                "%s reads %s not computed for its argument" %
                                (where, " and ".join(what)))
            if kind == "com" and cur is not None:
                fl = ev[3]
                st.cl = dict(st.cl)
                st.cl[("kin", dev)] = cur | 0x20000 | \
                    (0x40000 if fl is None or fl & 2 else 0)
            if kind == "geom" and cur is not None:
                st.cl = dict(st.cl)
                st.cl[("kin", dev)] = cur | 0x80000
            return None
        if kind == "dist":
            if self.exempt(st):
                return None
            if not any(v & 0x80000 for k, v in st.cl.items()
                       if isinstance(k, tuple) and k[0] == "kin"):
                self.report(I, node, "geom:%s" % where,
                            "%s computes distances of geometries not placed "
                            "at its argument" % where)
        return None

    def exempt(self, st):
        # function created without a robot
        return any(k[0] == "nonnull" and v is False and
                   k[1][0] == "path" and "robot" in str(k[1][1][-1])
                   for k, v in st.facts.items())


def kin_reach(M):
    """Functions from which a kinematic event can be reached."""
    if hasattr(M, "_kin_reach"):
        return M._kin_reach
    callers = {}
    seed = set()
    for f in M.funcs:
        for part in ("body", "inits"):
            for n in walk(f.get(part)):
                if n["k"] not in ("call", "ctor"):
                    continue
                if n["k"] == "call" and kin.event(n, V(), [V()] * 8):
                    seed.add(id(f))
                if n["k"] == "call":
                    cs = M.callees(n)
                    if n.get("virt") and len(cs) > 1 and not M.isa(
                            cs[0].get("cls") or "",
                            NS + "CalculusBaseAbstract"):
                        cs = []
                else:
                    d = M.definition(n.get("u") or "")
                    cs = [d] if d else []
                for g in cs:
                    callers.setdefault(id(g), set()).add(id(f))
    todo = list(seed)
    while todo:
        x = todo.pop()
        for y in callers.get(x, ()):
            if y not in seed:
                seed.add(y)
                todo.append(y)
    M._kin_reach = seed
    return seed


def small(f):
    """Accessors and other short functions."""
    if "_small" not in f:
        f["_small"] = sum(1 for _ in walk(f.get("body"))) < 60
    return f["_small"]


def show(v):
    if v.path is not None:
        return show_path(v.path)
    return "a value"


def dev_name(d):
    return "shared" if d == "shared" else show_path(d)


def run(R, M):
    R.rule("a placement, Jacobian, centre of mass or geometry is read only "
           "after the robot was set to the argument of the evaluation and "
           "the quantity computed")
    R.rule("the configuration given to the robot is derived from the "
           "argument")
    R.rule("results kept from an earlier evaluation are returned only for "
           "the argument they were computed for and are all renewed")
    R.assume("hpp::pinocchio::Device recomputes what a flag asks for after "
             "its configuration changed")
    R.assume("caches of symbolic expressions are fresh (property C16)")
    R.rule("a temporary that evaluations write is not read by an evaluation "
           "before it writes it")
    for K, g, name, p, (file, line, tr), why in stale.classes(M, R):
        R.bad("%s:stale:%s" % (short(K), show_path(p)),
              "%s reads %s before it writes it, %s" % (
                  name, show_path(p), why), file, line, tr)
    for K, g in evaluations(M):
        c = KinClient(argname(g, 1))
        I = Interp(M, c)
        I.maxsteps = 150000
        name = short(K) + tag(g)
        try:
            I.run(g, V(("this",), cls=K))
        except TooBig as e:
            # the reads of shared expressions are left out
            R.assume("%s::%s: expressions explored up to a bound" %
                     (name, base(g["q"])))
            c.novirt = True
            I = Interp(M, c)
            I.maxsteps = 150000
            try:
                I.run(g, V(("this",), cls=K))
            except TooBig as e:
                R.unclear("%s::%s: %s" % (name, base(g["q"]), e))
        for k, (msg, file, line, tr) in sorted(c.bad.items()):
            R.bad("%s:%s" % (short(K), k), "%s: %s" % (name, msg), file,
                  line, tr)
        if c.nread:
            R.analysed(g)
            R.count("kinematic reads", c.nread)
            for _ in range(1 if c.bad else c.nread):
                R.ok()
        memo(R, M, K, g, name)


class MemoClient(Client):
    """Collects what each path writes and reads in this, and the memo test."""
    loop_min1 = True

    def __init__(self, arg):
        self.arg = arg

    def decided(self, I, st, key, value):
        if key[0] == "cmp" and key[1] == "==":
            ps = [k[1] for k in key[2:4] if k[0] == "path"]
            a = [p for p in ps if p == (self.arg,)]
            m = [norm(p) for p in ps if p[0] == "this" and len(p) > 1]
            m = [p for p in m if not any(overlap(p, w) for w in
                                         st.cl.get("w", ()))]
            if a and m:
                st.cl = dict(st.cl)
                st.cl["memo"] = (m[0], value)

    def read(self, I, st, path, node):
        if path[0] == "this" and st.cl.get("memo", (0, 0))[1]:
            st.cl = dict(st.cl)
            st.cl["r"] = st.cl.get("r", frozenset()) | {norm(path)}

    def copied(self, I, st, dst, src, node):
        if src[0] == "this":
            self.read(I, st, src, node)
        self.w(st, dst)
        if src == (self.arg,):
            st.cl["warg"] = st.cl.get("warg", frozenset()) | {norm(dst)}

    def write(self, I, st, path, node, how, val=None):
        if how == "alias":
            return
        self.w(st, path)
        if val is not None and val.path == (self.arg,):
            st.cl["warg"] = st.cl.get("warg", frozenset()) | {norm(path)}

    def w(self, st, path):
        if path[0] == "this":
            st.cl = dict(st.cl)
            st.cl["w"] = st.cl.get("w", frozenset()) | {norm(path)}

    def track_fact(self, key):
        return key[0] == "nonnull" and \
            all(p[0] == "this" for p in deps(key))

    def inline(self, I, st, node, f, ov, avs):
        return (f.get("cls") or "").startswith(NS) and len(I.stack) < 4

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []


def memo(R, M, K, g, name):
    c = MemoClient(argname(g, 1))
    I = Interp(M, c)
    I.maxsteps = 60000
    try:
        outs = I.run(g, V(("this",), cls=K))
    except TooBig:
        return
    tests = {}
    for k, s, v in outs:
        if k == "ret" and s.cl.get("memo") and s.cl["memo"][1]:
            tests.setdefault(s.cl["memo"][0], set()).update(
                x for x in s.cl.get("r", ()) if x != s.cl["memo"][0])
    for m, used in tests.items():
        # data the computing paths renew
        cand = set()
        for k, s, v in outs:
            if k == "ret" and s.cl.get("memo") == (m, False):
                cand |= set(s.cl.get("w", ()))
        used = {u for u in used if any(overlap(u, w) for w in cand) or
                is_mutable(M, K, u)}
        used = {u for u in used if is_mutable(M, K, u)}
        for k, s, v in outs:
            if k != "ret" or s.cl.get("memo", (0, True))[1]:
                continue
            w = s.cl.get("w", frozenset())
            sig = this_facts(s)
            same = set()
            for k2, s2, v2 in outs:
                if k2 == "ret" and s2.cl.get("memo") == (m, False) and \
                        this_facts(s2) == sig:
                    same |= set(s2.cl.get("w", ()))
            R.count("memo paths")
            R.check(m in s.cl.get("warg", ()), "%s:memo:%s" %
                    (short(K), show_path(m)),
                    "%s: results are kept without recording the argument "
                    "they belong to in %s" % (name, show_path(m)),
                    g["file"], g["line"],
                    text="%s: %s records the argument" %
                    (name, show_path(m)))
            for u in sorted(used):
                if not any(overlap(u, x) for x in same) and \
                        any(overlap(u, x) for x in cand):
                    continue      # constant for this kind of object
                R.check(any(overlap(u, x) for x in w), "%s:memo:%s:%s" %
                        (short(K), show_path(m), show_path(u)),
                        "%s: %s is returned for the argument kept in %s but "
                        "not renewed with it" %
                        (name, show_path(u), show_path(m)),
                        g["file"], g["line"],
                        text="%s: %s renewed with %s" %
                        (name, show_path(u), show_path(m)))


def is_mutable(M, K, p):
    c, fd = M.field(K, p[1]) if len(p) > 1 and isinstance(p[1], str) else \
        (None, None)
    return bool(fd and fd.get("mut"))


def this_facts(s):
    return frozenset((k, v) for k, v in s.facts.items()
                     if k[0] == "nonnull" and
                     all(p[0] == "this" for p in deps(k)))


def mentions(key, name):
    if isinstance(key, tuple):
        if len(key) > 1 and isinstance(key[1], str) and \
                key[1].rsplit("::", 1)[-1] == name and \
                key[0] in ("call", "#"):
            return True
        return any(mentions(x, name) for x in key)
    return False
