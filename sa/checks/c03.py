"""C03: a copy carries all the data and shares no mutable state."""
import re

from ..flow import FlowClient, weak_fields
from ..interp import Interp, TooBig, V, norm, show_path
from ..model import short, walk
from ..solver import BS, HI, ECS
from ..util import DF, IMPL, NS, base
from .c02 import given_fields, reads_of

EXPLAIN = """Copy constructors (base copy constructors and helpers inlined)
are interpreted on all paths and the flow of data from the source object to
each member of the copy is recorded. Every member that operations read and
that is not work space must receive the same member of the source or data
computed from it. The final overrider of copy() in each constraint class must
return a new object of exactly that class built from the source, with the
weak pointer to itself that copy() uses set. Copy constructors of solvers must
fill every member that designates constraints with the results of copy(), and
rebuild the Lie group elements whose space the solver modifies in place.
Setters must write inside the object only, never through a pointer shared
with its copies."""

COPY = "N@copy"
ROOTS = (IMPL, HI, ECS, DF, NS + "ConvexShape")


class CopyClient(FlowClient):
    """copy() of a constraint yields a new object."""

    def __init__(self, M, replace=False):
        FlowClient.__init__(self, weak_fields(M))
        self.M = M
        self.replace = replace
        self.w = {}
        self.helper = set()
        self.ncopies = 0

    def pre_call(self, I, st, node, ov, avs):
        if self.replace and node["k"] == "call" and not avs and \
                base(node.get("f") or "") == "copy" and \
                (node.get("f") or "").startswith(NS):
            self.ncopies += 1
            return [(st, V((COPY,)))]
        return None

    def write(self, I, st, path, node, how, val=None):
        p = norm(path)
        self.w.setdefault(p, node.get("l"))
        if I.stack and I.stack[-1][0].get("ctor") is None:
            self.helper.add(p)
        w = st.cl.get("w", frozenset())
        if p not in w:
            st.cl = dict(st.cl)
            st.cl["w"] = w | {p}
        FlowClient.write(self, I, st, path, node, how, val)


def run(R, M):
    R.rule("data: each member that defines the object is copied from the same "
           "member of the source or computed from the source")
    R.rule("type: copy() returns a new object of the class of the source")
    R.rule("ownership: a copied solver designates copies of the constraints")
    R.rule("sharing: setters do not write through pointers")
    R.assume("functions and robots a constraint refers to may be shared")
    R.assume("implicit copy constructors copy every member")
    reads, whole = reads_of(M)
    given = given_fields(M)
    for f in M.funcs:
        if f.get("ctor") == "copy" and f.get("body") is not None and \
                any(M.isa(f["cls"], r) for r in ROOTS):
            data(R, M, f, reads, given)
    for f in M.methods(IMPL, "operator="):
        if f.get("body") is not None and f["ps"] and IMPL.rsplit("::", 1)[
                -1] in f["ps"][0]["t"]:
            data(R, M, f, reads, given)
    types(R, M)
    for K in (HI, BS):
        owns(R, M, K)
    for K in [IMPL] + M.descendants(IMPL):
        setters(R, M, K)


def defining(M, K, reads, given):
    weak = weak_fields(M)
    for C in [K] + M.ancestors(K):
        for f in M.fields(C):
            n = f["n"]
            if (C, n) not in reads or (C, n) not in given or n in weak or \
                    f.get("static"):
                continue
            if f.get("mut") and (f.get("p") or "") not in M.recs:
                continue        # work space
            yield C, n


def data(R, M, f, reads, given):
    K = f["cls"]
    c = CopyClient(M)
    try:
        rs = Interp(M, c).run(f, V(("this",), cls=K))
    except TooBig:
        R.unclear("%s: too many paths" % short(f["q"]))
        return
    rs = [r for r in rs if r[0] == "ret"]
    R.analysed(f)
    src = ("arg:" + (f["ps"][0]["n"] or "0"),)
    name = short(f["q"])
    # what the source flows into
    back = {}
    for t, s, k in c.edges:
        back.setdefault(t[:2], set()).add((t, s, k))

    def origins(p, seen):
        """Source members that p (a member of this) comes from."""
        out = set()
        for t, s, k in back.get(p, ()):
            if s[:1] == src:
                out.add((s[1:], k))
            elif s[:2] not in seen and len(s) > 0:
                seen.add(s[:2])
                out |= {(x, "i" if kk == "e" and k != "e" else kk)
                        for x, kk in origins(s[:2], seen)}
                if len(s) == 1:
                    for q in [q for q in back if q[:1] == s and q != s]:
                        if q not in seen:
                            seen.add(q)
                            out |= origins(q, seen)
        return out

    # a fresh object made by the copy may be filled element by element
    for C, n in defining(M, K, reads, given):
        R.count("data members")
        o = origins(("this", n), {("this", n)})
        direct = {(s, k) for t, s, k in back.get(("this", n), ())
                  if s[:1] == src}
        if not o and (C in bases_copied(M, f) or
                      any(p[:2] == ("this", n) for p in c.helper)):
            # implicit copy of a base class, or recomputed by a helper
            R.ok("%s: %s" % (name, n))
            continue
        if not o:
            R.bad("%s:%s:lost" % (name, n),
                  "%s::%s is not copied from the source by %s" %
                  (short(C), n, name), f["file"], f["line"])
            continue
        same = any(s[1:2] == (n,) for s, k in direct)
        parts = {t for t, s, k in c.edges if t[:2] == ("this", n)}
        if M.field(K, n)[1].get("r") == "std::vector" and direct and \
                any(len(t) > 3 for t in parts) and not any(
                    e[0] in (("this", n), ("this", n, "[]")) and
                    e[2] in "ed" for e in c.edges):
            R.bad("%s:%s:part" % (name, n),
                  "only %s of the elements of %s::%s is copied by %s" %
                  (sorted(show_path(t) for t in parts), short(C), n, name),
                  f["file"], f["line"])
            continue
        if direct and not same and all(k == "e" for s, k in direct) and \
                all(len(s) == 2 and M.field(K, s[1])[1] is not None
                    for s, k in direct):
            R.bad("%s:%s:other" % (name, n),
                  "%s::%s is copied from %s by %s" %
                  (short(C), n, sorted(show_path(s) for s, k in direct),
                   name), f["file"], f["line"])
            continue
        missing = [r for r in rs if not any(
            p[:2] == ("this", n) for p in r[1].cl.get("w", ()))]
        if missing and f["q"].endswith("operator="):
            R.bad("%s:%s:path" % (name, n),
                  "%s::%s is not assigned on every path of %s" %
                  (short(C), n, name), f["file"], f["line"])
            continue
        R.ok("%s: %s from %s" % (name, n, sorted(
            show_path(s) for s, k in o)[:2]))


def bases_copied(M, f, depth=0):
    """Classes whose implicit copy constructor initialises part of f."""
    out = set()
    for x in f.get("inits") or ():
        e = x.get("x") or {}
        if not x.get("b") or e.get("k") != "ctor" or not e.get("copy"):
            continue
        B = x["b"].split("<")[0]
        d = M.definition(e.get("u") or "")
        if d is None or d.get("body") is None:
            out |= {B} | set(M.ancestors(B))
        elif depth < 5:
            out |= bases_copied(M, d, depth + 1)
    return out


def types(R, M):
    root = None
    for m in M.rec(IMPL)["methods"]:
        if m.get("n", "").rsplit("::", 1)[-1] == "copy" or \
                m["u"].endswith("@F@copy#1"):
            root = m["u"]
    if root is None:
        R.unclear("no function Implicit::copy")
        return
    for K in [IMPL] + M.descendants(IMPL):
        if any(m.get("pure") for m in M.rec(K)["methods"]):
            continue
        u = M.final_overrider(root, K)
        f = M.definition(u)
        if f is None:
            R.unclear("definition of copy in %s" % short(K))
            continue
        R.analysed(f)
        c = CopyClient(M)
        try:
            rs = Interp(M, c).run(f, V(("this",), cls=K))
        except TooBig:
            R.unclear("%s::copy: too many paths" % short(K))
            continue
        weak = any(x["k"] == "mem" and x["n"] in weak_fields(M)
                   for x in walk(f["body"]))
        for k, st, v in rs:
            if k != "ret":
                continue
            p = v.path if isinstance(v, V) and v.path else ("?",)
            if p[0] == "?" or p[0][0] not in "NaLt":
                R.unclear("%s::copy: result not resolved" % short(K))
                continue
            if not R.check(p[0].startswith("N%s:" % K),
                           "%s:copy:type" % short(K),
                           "copy() of a %s returns %s, not a new %s" %
                           (short(K), "a new " + short(p[0][1:].rsplit(
                               ":", 1)[0]) if p[0][0] == "N"
                            else "an object it does not create", short(K)),
                           f["file"], f["line"],
                           text="%s::copy returns a new %s" %
                           (short(K), short(K))):
                continue
            w = st.cl.get("w", ())
            if weak:
                R.check(any(x[0] == p[0] and x[-1] in weak_fields(M)
                            and len(x) == 2
                            for x in w),
                        "%s:copy:self" % short(K),
                        "the copy of a %s has no valid pointer to itself, "
                        "which copy() needs" % short(K), f["file"], f["line"],
                        text="%s::copy initialises the copy" % short(K))


def holds_constraints(M, K, fld, seen=()):
    """Does a member of this type contain pointers to constraints?"""
    t = " ".join(str(fld.get(k) or "") for k in ("t", "p", "r"))
    if "Implicit" in t and ("Ptr" in t or "shared_ptr" in t) and \
            "ImplicitConstraintSet" not in t or \
            "NumericalConstraints" in t or "Implicits_t" in t or \
            "ExplicitPtr" in t:
        return True
    for q in M.recs:
        if not q.startswith(NS) or q in seen:
            continue
        if q == fld.get("r") or re.search(
                r"(?<![\w:])%s(?![\w:])" % re.escape(q), t):
            if any(holds_constraints(M, q, g, seen + (q,))
                   for C in [q] + M.ancestors(q) for g in M.fields(C)
                   if not (g.get("ptr") or "Function" in g["t"])):
                return True
    return False


def owns(R, M, K):
    fs = [f for f in M.methods(K) if f.get("ctor") == "copy" and
          f.get("body") is not None]
    rec = M.rec(K)
    if not fs:
        R.bad("%s:shares" % short(K),
              "%s has no copy constructor of its own: copies share the "
              "constraints" % short(K), rec["file"], rec["line"])
        return
    f = fs[0]
    c = CopyClient(M, True)
    try:
        Interp(M, c).run(f, V(("this",), cls=K))
    except TooBig:
        R.unclear("%s: too many paths" % short(f["q"]))
        return
    src = "arg:" + (f["ps"][0]["n"] or "0")
    got = c.reach((COPY,), "edi")
    for C in [K] + M.ancestors(K):
        for fld in M.fields(C):
            if not holds_constraints(M, C, fld):
                continue
            n = fld["n"]
            R.count("members that designate constraints")
            R.check(any(p[:2] == ("this", n) for p in got),
                    "%s:shares:%s" % (short(K), n),
                    "after a copy of %s, %s designates the constraints of "
                    "the source" % (short(K), n), f["file"], f["line"],
                    text="%s: %s designates copies" % (short(K), n))
            own = {s for t, s, k in c.edges if t[:2] == ("this", n) and
                   k in "ed" and s[0] == src and "[]" in s and
                   not (t[2:] == () and s[-1] != "[]" and False)}
            own = {s for s in own if not any(isinstance(x, str) and
                                             x not in (n, "[]", "constraints_")
                                             for x in s[1:])}
            R.check(not own, "%s:element:%s" % (short(K), n),
                    "%s of a copied %s receives a constraint of the source "
                    "without copying it" % (n, short(K)), f["file"],
                    c.lines.get(next(iter(
                        (t, s, k) for t, s, k in c.edges if s in own and
                        t[:2] == ("this", n)), None), f["line"])
                    if own else f["line"])
    spaces(R, M, K, f, c, src)


def spaces(R, M, K, f, c, src):
    """Lie group elements over the space of a stack."""
    adds = [g for g in M.methods(HI) if base(g["q"]) in ("add", "update")
            and g.get("body") is not None]
    # members of elements of the solver tables that are built over the space
    # of a stack when a constraint is added
    for g in adds:
        cc = CopyClient(M)
        try:
            Interp(M, cc).run(g, V(("this",), cls=HI))
        except TooBig:
            continue
        for t, s, k in cc.edges:
            if t[0] == "this" and len(t) >= 4 and t[2] == "[]" and \
                    s[0] == "this" and \
                    s[-1].startswith("outputSpace") and t[1] != s[1] and \
                    over_space(M, t):
                fresh = any(
                    u == t and v[0] == "this" and v[1] != t[1] and
                    v[-1] == s[-1] for u, v, kk in c.edges)
                R.check(fresh, "%s:space:%s" % (short(K), show_path(t)),
                        "%s of a copied %s keeps the space of the source, "
                        "which is modified in place when a constraint is "
                        "added" % (show_path(t), short(K)), f["file"],
                        f["line"], text="%s built over %s of the copy" %
                        (show_path(t), show_path(s)))


def over_space(M, t):
    return any(f["n"] == t[-1] and "Liegroup" in f["t"]
               for q, rs in M.recs.items() if q.startswith(HI + "::")
               for r in rs for f in r["fields"])


def setters(R, M, K):
    for f in M.methods(K):
        if f.get("ctor") or f.get("const") or f.get("static") or \
                not f["ps"] or f.get("body") is None or \
                f.get("access") != 0 or \
                base(f["q"]) in ("add", "merge", "init", "serialize", "load",
                                 "operator=", "replace"):
            continue
        c = CopyClient(M)
        try:
            Interp(M, c).run(f, V(("this",), cls=K))
        except TooBig:
            R.unclear("%s: too many paths" % short(f["q"]))
            continue
        R.analysed(f)
        for p, line in sorted(c.w.items(), key=str):
            if p[0] != "this" or len(p) < 2:
                continue
            C, ff = M.field(K, p[1])
            if ff is None:
                continue
            ptr = ff.get("ptr") or "Ref" in ff["t"] or \
                "shared_ptr" in (ff.get("r") or "")
            deep = len(p) > 2 and ptr
            R.check(not deep, "%s:%s" % (short(f["q"]), show_path(p)),
                    "%s changes %s, which copies of the object share" %
                    (short(f["q"]), show_path(p)), f["file"], line,
                    text="%s writes %s" % (short(f["q"]), show_path(p)))
