"""C01: equality compares all the data that define an object."""
from ..flow import flow, weak_fields
from ..interp import (Client, Interp, V, norm, deps, NOC, covers, overlap, is_ptr_type,
                      show_path, show_key, TooBig)
from ..model import short

EXPLAIN = """Every equality function (virtual isEqual of each concrete
function / constraint class, member operator== of the value classes they
compare) is interpreted abstractly on all paths with both operands symbolic.
Each comparison of data of the two operands is an atom; a path that returns
true must have established equality of every datum given to the factories,
constructors and setters of the class (obtained by an information-flow
analysis of those functions), a path that returns false must have found an
inequality, atoms must compare the same datum of both operands, and no datum
written by evaluation may be compared."""

SIZES = ("size", "rows", "cols", "empty", "nbRows", "nbCols", "nbIndices",
         "length", "count", "capacity")
NS = "hpp::constraints::"


def subst(key, a, b):
    if isinstance(key, tuple):
        if len(key) == 2 and key[0] == "path":
            p = key[1]
            if p and p[0] == a:
                p = (b,) + p[1:]
            return ("path", tuple(subst(x, a, b) if isinstance(x, tuple)
                                  else x for x in p))
        return tuple(subst(x, a, b) for x in key)
    return key


def normkey(key):
    """Key with loop indices forgotten (paths normalised)."""
    if isinstance(key, tuple):
        if len(key) == 2 and key[0] == "path":
            return ("path", norm(key[1]))
        return tuple(normkey(x) for x in key)
    return key


class EqClient(Client):
    assume_asserts = True
    loop_min1 = True

    def __init__(self, K, casts=False):
        self.K = K
        self.atoms = []       # (this paths, other paths, key, line)
        self.cross = []
        self.reverse = 0
        self.rev_arg = []
        self.casts = casts
        self.pointers = set()
        self.objects = set()     # compared by an operator of the repository

    def may_throw(self, I, st, node, f):
        return ("std::bad_cast",) if f == "dynamic_cast" and self.casts \
            else ()

    def compared(self, I, st, e, a, b):
        xs = [e["x"], e["y"]] if e["k"] == "bin" else \
            ([e["o"]] if e.get("o") else []) + e.get("a", [])
        if any(is_ptr_type(x) for x in xs):
            for v in (a, b):
                if v.path is not None:
                    self.pointers.add(norm(v.path))

    def note(self, I, st, a, b, key, eq, line, full):
        pa = frozenset(norm(p) for p in deps(a) if p[0] == "this")
        st.cl = dict(st.cl)
        if eq:
            st.cl["eq"] = st.cl.get("eq", frozenset()) | \
                frozenset((p, full) for p in pa)
        else:
            st.cl["ne"] = st.cl.get("ne", frozenset()) | pa

    def decided(self, I, st, key, value):
        if key[0] == "cmp" and key[1] == "==":
            a, b = key[2], key[3]
        elif key[0] == "cmp":
            a, b = key[2], key[3]
            value = False if value else None
        elif key[0] == "truth":
            roots = {p[0] for p in deps(key)}
            if not {"this", "other"} <= roots:
                return
            a = b = key[1]
        else:
            return
        ra = {p[0] for p in deps(a)}
        rb = {p[0] for p in deps(b)}
        if "other" in ra and "this" in rb and "this" not in ra:
            a, b = b, a
            ra, rb = rb, ra
        if "this" not in ra or "other" not in rb:
            return
        line = I.stack and self.line(I)
        if a is not b and ("other" in ra or "this" in rb):
            return
        full = True
        if a is not b:
            if normkey(subst(a, "this", "other")) != normkey(b):
                self.cross.append((a, b, line))
            if a[0] == "call" and a[1].rsplit("::", 1)[-1] in SIZES and \
                    not self.nonscalar(a, key):
                full = False
        if value is None:
            return
        self.note(I, st, a, b, key, value, line, full)

    def nonscalar(self, a, key):
        # rows()/cols() of a set of blocks returns the intervals themselves
        return "MatrixBlocks" in a[1]

    def line(self, I):
        f, n = I.stack[-1]
        return "%s:%s" % (f.get("file"), f.get("line"))

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] != "call":
            return None
        name = (node.get("f") or "").rsplit("::", 1)[-1]
        vals = ([ov] if ov is not None else []) + list(avs)
        ps = [v.path for v in vals[:2] if v is not None]
        if name in ("isEqual", "operator==", "operator!="):
            if len(ps) >= 2 and None not in ps[:2]:
                p, q = ps[0], ps[1]
                if p == ("this",) and q == ("other",):
                    if node.get("virt") and not node.get("qual") and \
                            name == "isEqual" and not self.within(I):
                        pass
                    return None
                if p == ("other",) and q == ("this",):
                    if name == "isEqual":
                        a, b = st, st.copy()
                        b.cl = dict(b.cl)
                        a.cl = dict(a.cl)
                        a.cl["rev"] = True
                        b.cl["ne"] = b.cl.get("ne", frozenset()) | \
                            frozenset([("reverse",)])
                        self.reverse += 1
                        if len(avs) > 1:
                            self.rev_arg.append(avs[1].const)
                        return [(a, V(const=True)), (b, V(const=False))]
                    return None
                if not I.M.callees(node) and name != "isEqual":
                    return None
                # equality of two parts, decided by their own operator
                a, b = ("path", p), ("path", q)
                self.objects |= {norm(p), norm(q)}
                if p == q:
                    return [(st, V(const=name != "operator!="))]
                neg = name == "operator!="
                t, f = st, st.copy()
                k = ("cmp", "==", a, b)
                if k in st.facts:
                    return [(st, V(const=st.facts[k] != neg))]
                t.facts[k] = True
                f.facts[k] = False
                self.decided(I, t, k, True)
                self.decided(I, f, k, False)
                return [(t, V(const=not neg)), (f, V(const=neg))]
        return None

    def within(self, I):
        return False

    def track_fact(self, key):
        return True


def eq_functions(M):
    """(class K, function, kind) of all equality functions to decide."""
    out = []
    roots = (NS + "DifferentiableFunction", NS + "Implicit")
    for root in roots:
        for K in [root] + M.descendants(root):
            r = M.rec(K)
            if r is None:
                continue
            # the final overrider of isEqual in K
            fs = []
            for c in [K] + M.ancestors(K):
                fs = M.methods(c, "isEqual")
                if fs:
                    break
            if not fs:
                continue
            if c == K:
                for f in fs:
                    out.append((K, f, True))
            else:
                out.append((K, fs[0], False))
    for q in M.recs:
        if not q.startswith(NS) or any(M.isa(q, r) for r in roots):
            continue
        for f in M.methods(q, "operator=="):
            if len(f["ps"]) == 1 and f["ps"][0].get("r") == q:
                out.append((q, f, True))
    return out


def creators(M, K, f):
    """Functions through which the data of an object of class K are given."""
    out = []
    cta = f.get("cta")
    for g in M.funcs:
        if g.get("cls") != K:
            continue
        if cta is not None and g.get("cls") == f.get("cls") and \
                g.get("cta") != cta:
            continue
        name = g["q"].rsplit("::", 1)[-1]
        if g.get("static") and name == "create":
            out.append((g, "create"))
        elif g.get("ctor") and g.get("access") == "public":
            if len(g["ps"]) == 1 and g["ps"][0].get("r") == K:
                continue           # copy constructor
            out.append((g, "ctor"))
    return out


def run(R, M):
    R.rule("a path returning true has compared every defining datum")
    R.rule("a path returning false has found a datum that differs")
    R.rule("each comparison is between the same datum of both objects")
    R.rule("data written by evaluation are not compared")
    R.assume("equality operators of external types (Eigen, std, pinocchio "
             "device) compare all the data of their operands")
    R.assume("the name of a joint identifies it within a robot")
    done = set()
    scratch_cache = {}
    for K, f, own in eq_functions(M):
        kname = short(K)
        c = EqClient(K)
        I = Interp(M, c)
        this = V(("this",), cls=K)
        other = V(("other",), cls=K)
        args = [other] + [V(const=True)] * (len(f["ps"]) - 1)
        if f.get("body") is None:
            continue
        try:
            outs = I.run(f, this, args)
        except TooBig as e:
            R.unclear("%s::%s: %s" % (kname, "isEqual", e))
            continue
        R.analysed(f)
        R.count("equality functions")
        where = (f["file"], f["line"])
        dep = "<%s>" % f["cta"] if f.get("cta") else ""
        if M.isa(K, NS + "Implicit"):
            for k, s, v in Interp(M, EqClient(K, True)).run(f, this, args):
                if k == "thr" and v == "std::bad_cast":
                    R.bad("%s:bad_cast" % kname,
                          "comparing %s with a constraint of another class "
                          "throws" % kname, *where)
        true, false = [], []
        for k, s, v in outs:
            if k != "ret" or not isinstance(v, V):
                continue
            if v.const is not False:
                true.append(s)
            if v.const is False:
                false.append(s)
        R.count("paths", len(true) + len(false))
        # consistency of the pairs
        for a, b, line in c.cross:
            R.bad("%s:cross:%s" % (kname, show_key(normkey(a))),
                  "equality of %s compares %s with %s" %
                  (kname, show_key(a), show_key(b)), *where)
        # reflexivity
        for s in false:
            R.check(s.cl.get("ne"), "%s:false-without-difference" % kname,
                    "equality of %s returns false on a path where every "
                    "comparison found equal data (%s)" %
                    (kname, ", ".join(sorted(show_path(p) for p, _ in
                                             s.cl.get("eq", ())))),
                    *where)
        for s in true:
            ne = [p for p in s.cl.get("ne", ())]
            # a pointer may differ when the objects pointed to are equal
            eqp = {p for p, _ in s.cl.get("eq", ())}
            bad = [p for p in ne if p not in eqp]
            R.check(not bad, "%s:true-despite:%s" %
                    (kname, ",".join(sorted(show_path(p) for p in bad))),
                    "equality of %s returns true although %s differ" %
                    (kname, ", ".join(show_path(p) for p in bad)), *where)
        if not true:
            R.unclear("%s: never true" % kname)
            continue
        # what is compared on all true paths
        full = None
        for s in true:
            e = s.cl.get("eq", frozenset())
            fu = {p for p, ok in e if ok}
            sz = {p for p, ok in e if not ok}
            # element-wise comparison needs the sizes to be compared too
            fu2 = set()
            for p in fu:
                if p and p[-1] == "[]":
                    base = p
                    while base and base[-1] == "[]":
                        base = base[:-1]
                    if base in sz or base in fu:
                        fu2.add(base)
                else:
                    fu2.add(p)
            full = fu2 if full is None else full & fu2
        # temporaries
        for p in sorted(full | {p for s in true for p, _ in
                                s.cl.get("eq", ())}):
            if p in c.pointers or p in c.objects:
                continue
            w = written_by_evaluation(M, K, f, scratch_cache)
            hit = [x for x in w if covers(p, x)]
            R.check(not hit, "%s:temporary:%s" % (kname, show_path(p)),
                    "equality of %s compares %s, which evaluation writes" %
                    (kname, show_path(p)), *where,
                    text="%s: %s is not a temporary" % (kname, show_path(p)))
        # the data given to the object
        weak = weak_fields(M)
        for g, kind in creators(M, K, f):
            if (g["file"], g["line"], K, dep) in done:
                continue
            done.add((g["file"], g["line"], K, dep))
            try:
                fc, rs = flow(M, g)
            except TooBig as e:
                R.unclear("%s: %s" % (short(g["q"]), e))
                continue
            R.analysed(g)
            roots = {v.path[:1] for k, s, v in rs
                     if k == "ret" and isinstance(v, V) and v.path}
            if kind == "ctor":
                roots = {("this",)}
            if not roots:
                continue
            for p in g["ps"]:
                if not p["n"]:
                    continue
                src = ("arg:" + p["n"],)
                reach = {}
                for kinds in ("en", "end", "enid"):
                    t = {("this",) + x[1:] for x in fc.reach(src, kinds)
                         if x[:1] in roots and len(x) > 1}
                    reach[kinds] = {x for x in t if not scratch(M, K, x)}
                need = reach["en"]
                if not any(len(x) == 2 for x in need):
                    # not stored as such: accept whatever carries it
                    need = reach["enid"]
                if not need:
                    R.count("parameters that define nothing")
                    continue
                if M.isa(K, NS + "Implicit") and \
                        all(is_rhs(M, K, x) for x in need):
                    R.count("right hand side parameters")
                    continue
                R.count("parameters")
                ok = any(covers(e, x) or covers(x, e)
                         for e in full for x in need)
                R.check(ok, "%s:%s" % (kname, p["n"]),
                        "two objects of class %s%s that differ by '%s' "
                        "(stored in %s) compare equal" %
                        (kname, dep, p["n"],
                         ", ".join(sorted(show_path(x) for x in need)[:4])),
                        *where,
                        trace=["compared on every path that returns true: " +
                               ", ".join(sorted(show_path(x) for x in full))],
                        text="%s: '%s' compared through %s" %
                        (kname, p["n"], ", ".join(sorted(
                            show_path(e) for e in full for x in need
                            if covers(e, x) or covers(x, e))[:2])))
        for p, base in setter_data(M, K, f, weak):
            g, prm, need = p
            R.count("setter parameters")
            ok = any(covers(e, x) or covers(x, e) for e in full for x in need)
            R.check(ok, "%s:%s" % (kname, prm),
                    "two objects of class %s that differ by '%s' given to %s "
                    "(stored in %s) compare equal" %
                    (kname, prm, short(g["q"]),
                     ", ".join(sorted(show_path(x) for x in need)[:4])),
                    *where)
    # symmetric test at the roots
    for root, name in ((NS + "DifferentiableFunction", "operator=="),
                       (NS + "Implicit", "operator==")):
        for f in M.methods(root, name):
            c = RootClient(root)
            I = Interp(M, c)
            outs = I.run(f, V(("this",)), [V(("other",))])
            R.analysed(f)
            for k, s, v in outs:
                if k == "ret" and isinstance(v, V) and v.const is not False:
                    got = s.cl.get("sym", frozenset())
                    need = {"fwd", "rev"}
                    R.check(need <= got, "%s:symmetry" % short(root),
                            "%s::%s returns true without testing equality "
                            "in both directions (an object of a base class "
                            "then equals one of a derived class)" %
                            (short(root), name), f["file"], f["line"],
                            text="%s::operator== tests both directions" %
                            short(root))
                if k == "thr" and v == "std::bad_cast":
                    R.bad("%s:bad_cast" % short(root),
                          "comparing objects of different classes throws",
                          f["file"], f["line"])
        if not M.methods(root, name):
            R.unclear("no %s::%s" % (root, name))


class RootClient(Client):
    """Follows operator== of a root class: which directions were tested?"""

    def __init__(self, root):
        self.root = root

    def pre_call(self, I, st, node, ov, avs):
        name = (node.get("f") or "").rsplit("::", 1)[-1]
        if name == "isEqual" and ov is not None and avs and \
                ov.path in (("this",), ("other",)):
            d = "fwd" if ov.path == ("this",) else "rev"
            if avs[0].path == ov.path:
                return None
            got = {d}
            if len(avs) > 1 and avs[1].const is True:
                got.add("rev" if d == "fwd" else "fwd")
            a, b = st, st.copy()
            a.cl = dict(a.cl)
            a.cl["sym"] = a.cl.get("sym", frozenset()) | frozenset(got)
            if self.root.endswith("DifferentiableFunction"):
                I.thrown.append((st.copy(), "std::bad_cast"))
            return [(a, V(const=True)), (b, V(const=False))]
        return None


class WriteClient(Client):
    loop_min1 = True

    def __init__(self):
        self.w = set()

    def write(self, I, st, path, node, how, val=None):
        if path[0] == "this" and how != "alias":
            self.w.add(norm(path))

    def copied(self, I, st, dst, src, node):
        if dst[0] == "this":
            self.w.add(norm(dst))


def written_by_evaluation(M, K, f, cache):
    key = (K, f.get("cta"))
    if key in cache:
        return cache[key]
    out = set()
    for c in [K] + M.ancestors(K):
        for name in ("impl_compute", "impl_jacobian"):
            for g in M.methods(c, name):
                if g.get("cls") == f.get("cls") and \
                        g.get("cta") != f.get("cta"):
                    continue
                w = WriteClient()
                try:
                    Interp(M, w).run(g, V(("this",), cls=K))
                except TooBig:
                    continue
                out |= w.w
    out = {p for p in out if len(p) > 1}
    cache[key] = out
    return out


def scratch(M, K, path):
    """Mutable members are temporaries of evaluation."""
    c, fd = M.field(K, path[1]) if len(path) > 1 else (None, None)
    return bool(fd and fd.get("mut"))


def is_rhs(M, K, path):
    """Data a right hand side setter of Implicit writes are not identity."""
    key = "_rhs_members"
    if not hasattr(M, key):
        out = set()
        for g in M.methods(NS + "Implicit"):
            n = g["q"].rsplit("::", 1)[-1]
            if n in ("rightHandSide", "rightHandSideFromConfig") and \
                    not g.get("static"):
                w = WriteClient()
                try:
                    Interp(M, w).run(g, V(("this",)))
                except TooBig:
                    continue
                out |= {p[:2] for p in w.w if len(p) > 1}
        setattr(M, key, out)
    return path[:2] in getattr(M, key)


def setter_data(M, K, f, weak):
    """Public non-const single-purpose setters of K whose argument is stored
    in a member that the evaluation of K reads."""
    out = []
    if not M.isa(K, NS + "DifferentiableFunction"):
        return out
    reads = None
    for g in M.funcs:
        if g.get("cls") != K or g.get("static") or g.get("ctor") or \
                g.get("const") or g.get("access") != "public":
            continue
        if f.get("cls") == K and g.get("cta") != f.get("cta"):
            continue
        n = g["q"].rsplit("::", 1)[-1]
        if n.startswith(("operator", "~", "serialize", "save", "load")) or \
                g.get("rt") not in ("void",) or not g["ps"]:
            continue
        try:
            fc, rs = flow(M, g, V(("this",), cls=K))
        except TooBig:
            continue
        if reads is None:
            reads = evaluation_reads(M, K, f)
        for p in g["ps"]:
            t = set()
            for kinds in ("en", "end"):
                t = {x for x in fc.reach(("arg:" + p["n"],), kinds)
                     if x[:1] == ("this",) and len(x) > 1 and
                     not scratch(M, K, x)}
                if t:
                    break
            if t and any(overlap(x, r) for x in t for r in reads):
                out.append(((g, p["n"], t), None))
    return out


class ReadClient(Client):
    loop_min1 = True

    def __init__(self):
        self.r = set()

    def read(self, I, st, path, node):
        if path[0] == "this":
            self.r.add(norm(path))


def evaluation_reads(M, K, f):
    out = set()
    for c in [K] + M.ancestors(K):
        for name in ("impl_compute", "impl_jacobian"):
            for g in M.methods(c, name):
                if g.get("cls") == f.get("cls") and \
                        g.get("cta") != f.get("cta"):
                    continue
                w = ReadClient()
                try:
                    Interp(M, w).run(g, V(("this",), cls=K))
                except TooBig:
                    continue
                out |= w.r
    return {p for p in out if len(p) > 1}
