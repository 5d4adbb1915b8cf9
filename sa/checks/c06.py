"""C06: evaluation leaves a function and its siblings unchanged."""
from .. import kin, stale
from ..flow import flow
from ..interp import Client, Interp, V, norm, TooBig, covers, show_path
from ..model import short, walk
from ..util import DF, NS, base, own_classes, tag

EXPLAIN = """Effect analysis. Every value, Jacobian, equality and printing
function of every differentiable function class, and every compute function
of the symbolic expressions, is interpreted on all its paths and the objects
it writes are collected, through helper functions, references and pointers.
None may be a datum that defines an object (a member that receives a
constructor, factory or setter argument unchanged, found by an information
flow analysis), a member that is not declared a temporary, or a variable with
static storage. The classes that evaluate on a private copy of the robot data
may write nothing reachable from the object and read or set no kinematic
quantity of the shared robot."""

CALC = NS + "CalculusBaseAbstract"
SYNC = [NS + x for x in ("GenericTransformation", "RelativeCom",
                         "ConvexShapeContact", "ConvexShapeContactComplement",
                         "ConvexShapeContactHold")]
EVAL = ("impl_compute", "impl_jacobian", "isEqual", "print")
# the base class of symbolic expressions holds their results
RESULTS = (NS + "CalculusBase", CALC)
CEVAL = ("impl_value", "impl_jacobian", "computeValue", "computeJacobian",
         "computeCrossValue", "computeCrossMatrix", "invalidate", "compute",
         "impl_compute")


class Effects(Client):
    loop_min1 = True

    def __init__(self, roots=("this",)):
        self.w = {}
        self.kin = {}
        self.sync = False

    def put(self, I, path, node, how):
        if how in ("alias", "decl"):
            return
        r = path[0]
        if r == "this" or r.startswith("::"):
            n = norm(path)
            if n not in self.w:
                f = I.stack[-1][0]
                self.w[n] = (f.get("file"), (node or {}).get("l"), how,
                             ["%s:%s" % (g["q"], (x or {}).get("l"))
                              for g, x in I.stack])

    def write(self, I, st, path, node, how, val=None):
        self.put(I, path, node, how)

    def copied(self, I, st, dst, src, node):
        self.put(I, dst, node, "=")

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] == "ctor":
            return None
        f = node.get("f") or ""
        if f.endswith("::d") and "DeviceSync" in f:
            self.sync = True
        ev = kin.event(node, ov, avs)
        if ev is not None and ev[0] != "dist":
            dev = kin.device_key(ev, self.known(ov, avs))
            if dev == "shared":
                g = I.stack[-1][0]
                self.kin.setdefault((ev[0], f), (
                    g.get("file"), node.get("l"),
                    ["%s:%s" % (h["q"], (x or {}).get("l"))
                     for h, x in I.stack]))
        return None

    def known(self, ov, avs):
        return ()


def identity(M, K, cache):
    """{path of a datum given to objects of class K: how it is given}"""
    if K in cache:
        return cache[K]
    out = {}
    for c in [K] + M.ancestors(K):
        if M.rec(c) is None:
            continue
        for g in M.funcs:
            if g.get("cls") != c:
                continue
            n = base(g["q"])
            if g.get("static") and n != "create":
                continue
            if not g.get("static") and not g.get("ctor") and (
                    g.get("const") or g.get("access") != "public" or
                    not g["ps"] or n in EVAL + CEVAL or
                    n in ("serialize", "save", "load", "operator=")):
                continue
            if g.get("ctor") and len(g["ps"]) == 1 and \
                    g["ps"][0].get("r") == c:
                continue
            try:
                fc, rs = flow(M, g, V(("this",), cls=K)
                              if not g.get("static") else None)
            except TooBig:
                continue
            roots = {("this",)}
            if g.get("static"):
                roots = {v.path[:1] for k, s, v in rs
                         if k == "ret" and isinstance(v, V) and v.path}
            for p in g["ps"]:
                if not p["n"]:
                    continue
                got = [x for x in fc.reach(("arg:" + p["n"],), "en")
                       if x[:1] in roots and len(x) > 1 and not (
                            isinstance(x[1], str) and M.field(K, x[1])[0]
                            in RESULTS)]
                # a temporary holds a datum only if nothing else does
                keep = [x for x in got if not mutable(M, K, x)]
                for x in keep or got:
                    out.setdefault(("this",) + x[1:],
                                   "%s of %s" % (p["n"], short(g["q"])))
    cache[K] = out
    return out


def initial(M, K):
    """Members that receive an argument of a constructor."""
    out = set()
    for g in M.methods(K, base(K)):
        if not g.get("ctor"):
            continue
        try:
            fc, rs = flow(M, g, V(("this",), cls=K))
        except TooBig:
            continue
        for p in g["ps"]:
            if p["n"]:
                out |= {x for x in fc.reach(("arg:" + p["n"],), "en")
                        if x[:1] == ("this",) and len(x) > 1}
    return out


def mutable(M, K, x):
    c, fd = M.field(K, x[1]) if isinstance(x[1], str) else (None, None)
    return bool(fd and fd.get("mut"))


def last(M, K, path):
    """Declaration of the last member on the path."""
    out = None
    for x in path[1:]:
        if x == "[]":
            continue
        c, fd = M.field(K, x)
        if fd is None:
            return out
        out = fd
        K = str(fd.get("p") or fd.get("r") or "")
    return out


def pointer(fd):
    t = fd.get("r") or ""
    return bool(fd.get("ptr") or fd.get("ref")) or "shared_ptr" in t or \
        "weak_ptr" in t or "_ptr" in fd.get("t", "").lower()


def pointee(M, fd):
    t = fd.get("p") or fd.get("r")
    return t


def resolve(M, K, path):
    """(member declaration on the way that settles the question, kind):
    kind 'value' (not a temporary), 'mutable', 'pointer'."""
    c, fd = M.field(K, path[1]) if isinstance(path[1], str) else (None, None)
    if fd is None:
        return None, None
    if pointer(fd):
        return fd, "pointer"
    if fd.get("mut"):
        return fd, "mutable"
    return fd, "value"


def run(R, M):
    R.rule("no datum given to a function is written by its evaluation")
    R.rule("evaluation writes only members declared as temporaries and no "
           "variable with static storage")
    R.rule("a temporary that holds a datum from the constructor is not read "
           "by an evaluation if another one overwrites it")
    R.rule("functions that take a private copy of the robot data write "
           "nothing reachable from the object and use only that copy")
    R.assume("objects of external classes reached through pointers (the "
             "robot of functions that do not take a private copy, solvers "
             "of external libraries) are working storage")
    cache = {}
    jobs = []
    for K in own_classes(M, DF):
        for n in EVAL:
            for g in M.methods(K, n):
                jobs.append((K, g, DF))
    for K in own_classes(M, CALC):
        for n in CEVAL:
            for g in M.methods(K, n):
                jobs.append((K, g, CALC))
    seen = {}
    for K, g, root in jobs:
        if g.get("body") is None:
            continue
        c = Effects()
        I = Interp(M, c)
        I.maxsteps = 150000
        name = "%s%s::%s" % (short(K), tag(g), base(g["q"]))
        try:
            I.run(g, V(("this",), cls=K))
        except TooBig as e:
            R.unclear("%s: %s" % (name, e))
        R.analysed(g)
        R.count("evaluation functions")
        seen.setdefault(K, []).append((g, c))
        ident = identity(M, K, cache)
        nb = 0
        for p, (file, line, how, tr) in sorted(c.w.items()):
            R.count("written objects")
            if p[0].startswith("::"):
                nb += 1
                R.bad("%s:static:%s" % (short(K), p[0]),
                      "%s writes %s, which all objects share" %
                      (name, show_path(p)), file, line, tr)
                continue
            if len(p) < 2:
                continue
            fd, kind = resolve(M, K, p)
            hit = [x for x in ident if covers(p, x) or
                   (covers(x, p) and kind != "pointer")]
            # through a pointer: only what lies behind it counts
            if kind == "pointer" and len(p) == 2 and how not in ("=",):
                hit = []
            if kind == "pointer" and len(p) > 2:
                hit = behind(M, fd, p, cache)
            lf = last(M, K, p)
            if lf is not None and how != "=" and (
                    pointer(lf) or "ptr" in lf.get("t", "").lower()):
                hit = []        # the object behind the pointer
            if hit:
                nb += 1
                R.bad("%s:%s" % (short(K), show_path(p)),
                      "%s writes %s, which holds %s" %
                      (name, show_path(p), hit_text(ident, hit)),
                      file, line, tr)
                continue
            if kind == "value" and root == DF and g.get("const"):
                nb += 1
                R.bad("%s:%s" % (short(K), show_path(p)),
                      "%s writes %s, which is not a temporary" %
                      (name, show_path(p)), file, line, tr)
                continue
        if not nb:
            R.ok("%s: %d written objects, all temporaries" %
                 (name, len(c.w)))
    # temporaries that receive a datum when the object is made
    for K, g, name, p, (file, line, tr), why in stale.classes(M, R):
        hit = [x for x in initial(M, K) if covers(p, x) or covers(x, p)]
        if hit:
            R.bad("%s:initial:%s" % (short(K), show_path(p)),
                  "%s reads %s, set when the object was made, %s" % (
                      name, show_path(p), why), file, line, tr)
    # private copies of the robot data
    for K in own_classes(M, DF):
        fs = [x for x in seen.get(K, ()) if base(x[0]["q"]) in
              ("impl_compute", "impl_jacobian")]
        if not fs:
            continue
        if K not in SYNC and not any(c.sync for g, c in fs):
            continue
        R.count("classes with a private copy of the robot data")
        for g, c in fs:
            name = "%s%s::%s" % (short(K), tag(g), base(g["q"]))
            nb = 0
            for p, (file, line, how, tr) in sorted(c.w.items()):
                if p[0] != "this" or len(p) < 2:
                    continue
                fd, kind = resolve(M, K, p)
                if kind == "pointer" and not str(pointee(M, fd) or "") \
                        .startswith(NS):
                    continue
                nb += 1
                R.bad("%s:shared:%s" % (short(K), show_path(p)),
                      "%s writes %s, which all threads evaluating this "
                      "object share" % (name, show_path(p)), file, line, tr)
            for (kind, f), (file, line, tr) in sorted(c.kin.items()):
                nb += 1
                R.bad("%s:robot:%s" % (short(K), base(f)),
                      "%s calls %s on the shared robot instead of its "
                      "private copy" % (name, base(f)), file, line, tr)
            if not nb:
                R.ok("%s: uses only its private copy of the robot data" %
                     name)


def behind(M, fd, p, cache):
    """Defining data of the object behind a pointer member."""
    T = str(pointee(M, fd) or "")
    if not T.startswith(NS) or M.rec(T) is None:
        return []
    q = ("this",) + p[2:]
    return [x for x in identity(M, T, cache) if covers(q, x)]


def hit_text(ident, hit):
    return ", ".join(sorted(ident.get(x, show_path(x)) for x in hit)[:3])
