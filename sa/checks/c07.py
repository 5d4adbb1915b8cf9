"""C07: queries and solving do not alter what defines a solver."""
from ..interp import Client, Interp, TooBig, V, norm, show_path
from ..model import short
from ..solver import BS, ECS, HI
from ..util import IMPL, NS, base

EXPLAIN = """Interprocedural effect analysis. Every const function of the
solvers, of the explicit constraint set and of the constraints, and every
function that solves, tests, evaluates or prints whatever its qualifiers, is
interpreted on all its paths (helpers, line searches and instances of
templates inlined, aliases and references resolved) and the data it writes
are collected. None may be part of the definition of the object: a member not
declared mutable, a comparison type, an index table, a pointer or a right hand
side, at any depth, through whatever container, reference or pointer it is
reached. Functions that extract from, merge or copy another solver may write
nothing in it."""

QUERY = {"solve", "impl_solve", "oneStep", "integrate", "isSatisfied",
         "isConstraintSatisfied", "computeValue", "computeError",
         "computeSaturation", "computeDescentDirection", "updateJacobian",
         "expandDqSmall", "projectVectorOnKernel", "projectOnKernel",
         "getValue", "getReducedJacobian", "residualError", "print",
         "getRightHandSide", "rightHandSideSize", "contains", "extract",
         "definesSubmanifoldOf", "errorSize", "jacobian", "computeJacobian",
         "solveExplicitConstraint", "setInactiveRowsToZero"}
SKIP = ("save", "load", "serialize")
# containers of these never hold results of evaluations
TABLES = ("Eigen::MatrixBlocks", "std::map", "std::shared_ptr",
          "std::weak_ptr", "std::set")


class Effects(Client):
    loop_min1 = True

    def __init__(self):
        self.w = {}

    def put(self, I, st, path, node, how):
        p = norm(path)
        if p not in self.w or how in ("=", "rebind", "init"):
            self.w[p] = (I.stack[-1][0].get("file"), (node or {}).get("l"),
                         ["%s:%s" % (short(g["q"]), (x or {}).get("l"))
                          for g, x in I.stack], how)

    def write(self, I, st, path, node, how, val=None):
        if how not in ("alias", "decl"):
            self.put(I, st, path, node, how)

    def copied(self, I, st, dst, src, node):
        self.put(I, st, dst, node, "=")

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []


class Reads(Client):
    loop_min1 = True

    def __init__(self):
        self.r = set()

    def read(self, I, st, path, node):
        self.r.add(norm(path))


def rhs_fields(M):
    """Members in which right hand sides are kept: those that the functions
    that return a right hand side read."""
    out = set()
    for K in (HI, BS, ECS):
        for f in M.methods(K):
            n = base(f["q"])
            if not f.get("const") or n not in (
                    "rightHandSide", "getRightHandSide") or \
                    f.get("body") is None:
                continue
            c = Reads()
            try:
                Interp(M, c).run(f, V(("this",), cls=K))
            except TooBig:
                continue
            for p in c.r:
                if len(p) > 2 and p[0] == "this" and p[-1] != "[]" and \
                        isinstance(p[-1], str):
                    out.add(p[-1])
    return out


def step(M, cls, name):
    for C in ([cls] + M.ancestors(cls)) if cls else ():
        for r in M.recs.get(C, []):
            for f in r["fields"]:
                if f["n"] == name:
                    return C, f
    return None, None


def target(M, f):
    """Repository class a member holds, designates or contains."""
    for k in ("p", "r"):
        q = (f.get(k) or "").split("<")[0] if "std::" not in (
            f.get(k) or "") else ""
        if "std::shared_ptr<" in (f.get(k) or ""):
            q = f[k].split("<", 1)[1].rstrip("> ")
        if q in M.recs and q.startswith(NS):
            return q
    return None


def defines(M, cls, path, rhs, how="="):
    """Member of the definition that a write to this path changes, or None.
    path: below an object of class cls."""
    names = [x for x in path if x != "[]"]
    if not names:
        return "(the whole object)" if not path else None
    scratch = False     # inside a member declared mutable
    for n, x in enumerate(names):
        C, f = step(M, cls, x)
        if f is None:
            return None         # inside an object of another library
        mut = f.get("mut")
        nxt = target(M, f)
        lastn = n == len(names) - 1
        if scratch or mut:
            tables = f["t"].split("::")[-1] == "ComparisonTypes_t" or \
                f.get("r") in TABLES or x in rhs and not mut or \
                f["t"].startswith("std::vector<std::size_t") or \
                "vector<unsigned long" in f["t"]
            if lastn and tables and not mut:
                return "%s::%s" % (short(C), x)
            if lastn and nxt and mut and f.get("r") == "std::vector":
                return "%s::%s" % (short(C), x)
            scratch = True
        elif lastn or nxt is None:
            if nxt is not None and not M.isa(nxt, IMPL) and \
                    f.get("r") == "std::shared_ptr" and \
                    how not in ("=", "rebind", "reset", "swap", "init"):
                return None     # the object designated has its own state
            return "%s::%s" % (short(C), x)
        if nxt is None:
            return None
        if not any(M.isa(nxt, r) for r in (HI, ECS, IMPL)) and \
                not nxt.startswith((HI + "::", ECS + "::")):
            return None
        cls = nxt
    return None


def run(R, M):
    R.rule("const functions and functions that solve, test, evaluate or "
           "print write no datum that defines the object")
    R.rule("functions that read another solver or constraint write nothing "
           "in it")
    R.assume("evaluating a differentiable function changes only its "
             "temporaries (C06)")
    R.assume("saturation objects are working objects of the solver")
    rhs = rhs_fields(M)
    for K in (HI, BS, ECS):
        for f in M.methods(K):
            one(R, M, K, f, rhs)
    for K in [IMPL] + M.descendants(IMPL):
        for f in M.methods(K):
            one(R, M, K, f, rhs)


def one(R, M, K, f, rhs):
    n = base(f["q"])
    if f.get("body") is None or n in SKIP or n.startswith("~"):
        return
    query = f.get("const") or n in QUERY and not f.get("static")
    others = []
    for i, p in enumerate(f["ps"]):
        q = (p.get("r") or "")
        if p.get("cq") is None and "const" not in p["t"]:
            continue
        for C in (HI, BS, ECS, IMPL):
            if q == C or q.startswith("std::shared_ptr") and query and \
                    C == IMPL and "Implicit" in p["t"]:
                others.append((i, p, C))
                break
    if not query and not others:
        return
    c = Effects()
    I = Interp(M, c)
    I.maxsteps = 4000000
    try:
        I.run(f, V(("this",), cls=K) if not f.get("static") else None)
    except TooBig:
        R.unclear("%s: too many paths" % short(f["q"]))
        return
    R.analysed(f)
    R.count("written data", len(c.w))
    name = short(f["q"]) + ("<%s>" % f["ta"].rsplit("::", 1)[-1]
                            if f.get("ta") else "")
    bad = {}
    for p, how in c.w.items():
        if query and p[0] == "this":
            d = defines(M, K, p[1:], rhs, how[3])
            if d:
                bad[p] = (d, how)
        for i, a, C in others:
            if p[0] == "arg:" + (a["n"] or str(i)):
                d = defines(M, C, p[1:], rhs, how[3])
                if d:
                    bad[p] = (d, how)
    if not bad:
        R.ok("%s writes no datum that defines the object (%d written)" %
             (name, len(c.w)))
    for p, (d, how) in sorted(bad.items(), key=str):
        R.bad("%s:%s" % (short(f["q"]), show_path(p)),
              "%s changes %s (%s)" % (name, d, show_path(p)), how[0], how[1],
              how[2])
