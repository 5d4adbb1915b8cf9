"""C09: explicit constraints hold at every configuration a solver evaluates."""
from ..interp import Client, Interp, NOC, State, TooBig, V, covers, norm, show_key, show_path
from ..model import short, walk
from ..solver import BS, ECS, EXC, HI, SolverClient, entry_functions
from ..util import NS, base

EXPLAIN = """Typestate analysis of the configuration on all paths of every
instance of the solve functions of BySubstitution, of oneStep and of
integrate (helpers, line searches and inherited functions inlined). Between an
integration step (or any other modification) and the next evaluation of the
implicit constraints at that object, or the return to the caller, the explicit
constraint set must have been solved at it. Solving the explicit constraint
set may throw FunctionNotDefinedForThisValue: no path may let it leave the
solve functions, nor end in SUCCESS. The explicit constraint set itself must
visit its constraints in the computed order and let the exception through."""


class Explicit(SolverClient):
    def __init__(self, M, cls, moves=False):
        SolverClient.__init__(self, M, cls, moves)
        self.bad = {}
        self.n = 0

    def evaluated(self, I, st, p, node):
        self.n += 1
        if p not in self.get(st, "exp"):
            self.bad.setdefault((I.stack[-1][0]["q"], node.get("l")), (
                p, I.stack[-1][0], node.get("l"),
                "modified by an integration step" if
                p in self.get(st, "raw") or p in self.get(st, "moved")
                else "given or modified"))

    def pre_call(self, I, st, node, ov, avs):
        n0 = len(I.thrown)
        r = SolverClient.pre_call(self, I, st, node, ov, avs)
        for t, w in I.thrown[n0:]:
            if w == EXC:
                self.put(t, "threw", {1})
        return r


def entries(M):
    """(function, configuration parameter, initially explicit, is solve)"""
    for K, f in entry_functions(M):
        if K == BS and sum(1 for _ in walk(f["body"])) >= 25:
            yield f, 0, False, True
    for f in M.methods(BS, "oneStep"):
        if f.get("body") is not None and not f.get("dep"):
            yield f, 0, True, False
    for f in M.methods(BS, "integrate"):
        if f.get("body") is not None:
            yield f, 2, False, False


def run(R, M):
    R.rule("BySubstitution evaluates the implicit constraints only at a "
           "configuration where the explicit ones were solved since its last "
           "modification")
    R.rule("the configuration handed back satisfies the explicit constraints "
           "unless an explicit function was not defined and the call failed")
    R.rule("FunctionNotDefinedForThisValue does not leave the solve functions")
    R.rule("ExplicitConstraintSet::solve visits the constraints in the order "
           "computed for them, inputs and outputs of each being its own")
    seen = set()
    for f, ip, init, solver in entries(M):
        name = "%s<%s>" % (short(f["q"]), (f.get("ta") or "").rsplit(
            "::", 1)[-1])
        c = Explicit(M, BS)
        I = Interp(M, c)
        I.maxsteps = 4000000
        arg = ("arg:" + f["ps"][ip]["n"],)
        st0 = State()
        if init:
            st0.cl = {"exp": frozenset({arg})}
        try:
            outs = I.run(f, V(("this",), cls=BS), st=st0)
        except TooBig as e:
            R.unclear("%s: %s" % (name, e))
            continue
        R.analysed(f)
        R.count("functions")
        R.count("evaluations on paths", c.n)
        seen.add(base(f["q"]))
        for _, (p, g, line, why) in sorted(c.bad.items(), key=str):
            R.bad("%s:evaluates" % short(f["q"]),
                  "%s evaluates the implicit constraints at %s, %s without "
                  "solving the explicit constraints" % (
                      name, show_path(p), why), g["file"], line)
        if not c.bad:
            R.ok("%s: every evaluation follows the explicit constraints" % name)
        for k, s, v in outs:
            if k != "ret":
                if solver:
                    R.check(v != EXC,
                            "%s:escape" % short(f["q"]),
                            "%s lets FunctionNotDefinedForThisValue escape"
                            % name, f["file"], f["line"])
                continue
            R.count("returning paths")
            if arg in c.get(s, "exp"):
                R.ok()
                continue
            st = v.const if isinstance(v, V) else NOC
            failed = c.get(s, "threw") and (
                not solver or isinstance(st, str) and base(st) != "SUCCESS")
            R.check(failed, "%s:return" % short(f["q"]),
                    "%s returns %s with a configuration where the explicit "
                    "constraints were not solved" % (
                        name, base(st) if isinstance(st, str) else ""),
                    f["file"], f["line"])
    for n in ("impl_solve", "integrate"):
        if n not in seen:
            R.unclear("BySubstitution::%s not found" % n)
    set_rules(R, M)


class SetClient(Client):
    """Visits of the explicit constraint set."""

    def __init__(self, tables):
        self.calls = []
        self.tables = tables

    def ordered(self, st, p):
        """The path holds entries of the order table."""
        if p is None:
            return False
        return any(x in self.tables for x in p) or any(
            covers(t, p) for t in st.cl.get("ord", ()))

    def mark(self, st, p, on):
        s = {t for t in st.cl.get("ord", ()) if t != norm(p)}
        st.cl = dict(st.cl)
        st.cl["ord"] = frozenset(s | {norm(p)} if on else s)

    def write(self, I, st, path, node, how, val=None):
        if len(path) == 1 and how in ("=", "decl") and val is not None:
            self.mark(st, path, self.ordered(st, val.path))

    def copied(self, I, st, dst, src, node):
        if len(dst) == 1:
            self.mark(st, dst, self.ordered(st, src))

    def virtual(self, I, st, node, cands, ov, avs):
        return []

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] == "ctor":
            return None
        n = base(node.get("f") or "")
        if n == "outputValue":
            e = prefix(ov.path if ov is not None else None)
            ix = e[-1][1] if e is not None and len(e[-1]) > 1 else None
            order = None
            if ix is not None and ix[0] in ("lit", "path"):
                order = ix[0] == "path" and self.ordered(st, ix[1])
                if not order and ix[0] == "path" and len(ix[1]) > 1:
                    order = None
            self.calls.append((ov.path if ov is not None else None,
                               [a.path for a in avs], node,
                               I.stack[-1][0], order))
            t = st.copy()
            t.cl = dict(t.cl)
            t.cl["threw"] = frozenset({1})
            I.thrown.append((t, EXC))
            for a in avs[:1]:
                if a.path is not None:
                    st.forget(a.path)
            return [(st, V())]
        return None


class OrderClient(Client):
    """Recursive calls and element writes of computeOrder."""

    def __init__(self, f):
        self.f = f
        self.tables = set()
        self.late = []
        self.recs = 0

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] != "ctor" and node.get("f") == self.f["q"]:
            self.recs += 1
            if st.cl.get("placed"):
                self.late.append(node)
            return [(st, V())]
        return None

    def write(self, I, st, path, node, how, val=None):
        ix = [x for x in path if isinstance(x, tuple) and x[0] == "[]"]
        if path[0] == "this" and len(ix) == 1 and how == "=" and \
                val is not None and val.path is not None and \
                len(val.path) == 1 and val.path[0].startswith("arg:"):
            self.tables.add(path[1])
            st.cl = dict(st.cl)
            st.cl["placed"] = frozenset({1})


def prefix(p):
    """Element of the table the path belongs to."""
    for i, x in enumerate(p or ()):
        if isinstance(x, tuple) and x[0] == "[]":
            return p[:i + 1]
    return None


def set_rules(R, M):
    tables = set()
    for f in M.methods(ECS, "computeOrder"):
        if f.get("body") is None:
            continue
        c = OrderClient(f)
        I = Interp(M, c)
        try:
            I.run(f, V(("this",), cls=ECS))
        except TooBig as e:
            R.unclear("computeOrder: %s" % e)
            continue
        R.analysed(f)
        tables |= c.tables
        if c.recs:
            R.check(not c.late, "computeOrder:late",
                    "computeOrder places a constraint before those that "
                    "compute its inputs", f["file"],
                    c.late[0].get("l") if c.late else f["line"])
    for f in M.methods(ECS, "solve"):
        if f.get("body") is None:
            continue
        c = SetClient(tables)
        I = Interp(M, c)
        try:
            outs = I.run(f, V(("this",), cls=ECS))
        except TooBig as e:
            R.unclear("ExplicitConstraintSet::solve: %s" % e)
            continue
        R.analysed(f)
        R.check(bool(c.calls), "ecs:none", "ExplicitConstraintSet::solve "
                "computes no explicit function", f["file"], f["line"])
        for ov, avs, node, g, ordered in c.calls:
            e = prefix(ov)
            if e is None:
                R.unclear("explicit constraint not identified")
                continue
            ix = e[-1][1] if len(e[-1]) > 1 else None
            if tables and ordered is not None:
                R.check(ordered, "ecs:order", "explicit constraints are not "
                        "visited in the order computed by computeOrder "
                        "(index %s)" % show_key(ix), g["file"],
                        node.get("l"), text="%s" % show_path(ov))
            for a in avs:
                if a is not None and prefix(a) is not None:
                    R.check(prefix(a) == e, "ecs:mixed",
                            "explicit constraint %s solved with data of "
                            "another one (%s)" % (show_path(ov),
                                                  show_path(a)),
                            g["file"], node.get("l"))
        for k, s, v in outs:
            if k == "ret":
                R.check(not s.cl.get("threw"), "ecs:swallow",
                        "ExplicitConstraintSet::solve returns although an "
                        "explicit function was not defined", f["file"],
                        f["line"])
