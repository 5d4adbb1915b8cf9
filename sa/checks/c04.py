"""C04: evaluation writes the whole output."""
from ..interp import (Client, Interp, V, norm, deps, NOC, TooBig, show_key,
                      show_path, FULL_VIEWS)
from ..model import short, walk
from ..util import DF, NS, base, evaluations, tag, argname

EXPLAIN = """Definite-assignment analysis of the outputs of value and Jacobian
evaluations. On every path that returns, the regions of the output that were
assigned (rows, columns, blocks, through views and through functions the
output is handed to) are collected in symbolic coordinates anchored at either
end. A path is a violation when no combination of the assigned regions reaches
both ends of a dimension, when a coefficient between two assigned constant
regions is left out, when it assigns nothing, or when it accumulates into a
region (+=, -=, *=) nothing has been assigned to before. Rows selected by a
counter that runs over a mask are taken as covering the rows of the mask."""

ALL = ("all",)
ANY = ("any",)
PART = ("part",)
ROWV = {"row": 0, "col": 1}
IDX = ("row", "col", "operator[]", "operator()", "coeffRef", "coeff")
ACC = ("+=", "-=", "*=", "/=")


def full_key(k, out):
    """The key denotes the full size of the output in some dimension."""
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] == "call":
        n = base(k[1])
        ps = {p[0] for p in deps(k)}
        if n in ("rows", "cols", "size") and out in ps:
            return True
        if n in ("outputSize", "outputDerivativeSize", "inputSize",
                 "inputDerivativeSize", "numberDof", "configSize"):
            return True
        if n in ("size", "rows") and any(p[0].startswith("arg:")
                                         for p in deps(k)):
            return True
    if k[0] == "path":
        p = k[1]
        # size members of the function and of its output space
        s = str(p)
        return any(x in s for x in ("inputSize_", "inputDerivativeSize_",
                                    "outputSpace_"))
    return False


def add(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if a == 0:
        return b
    if b == 0:
        return a
    return ("+", a, b)


def num(k):
    if isinstance(k, tuple) and k and k[0] == "lit":
        return k[1]
    return k


class Reg:
    """Interval of one dimension: start and end, each ('S', offset) from the
    start or ('E', offset) from the end."""


def sub(iv, sel):
    """Interval of a selection within interval iv=(start, end)."""
    s, e = iv
    if s == "*":
        return iv
    k = sel[0]
    if k == "all":
        return iv
    if k == "any":
        return ("*", "*")
    if k == "part":
        return ("?", "?")
    if s == "?":
        return iv
    if k == "head":
        return (s, shift(s, sel[1]))
    if k == "tail":
        return (shift(e, neg(sel[1])), e)
    if k == "mid":
        a = shift(s, sel[1])
        return (a, shift(a, sel[2]))
    return ("?", "?")


def neg(n):
    return -n if isinstance(n, int) else ("-", n)


def shift(p, n):
    return (p[0], add(p[1], n))


def selectors(name, args, ta):
    """(row selection, column selection) of a view; None: not a view."""
    a = [num(x) for x in args]

    def get(i):
        return a[i] if i < len(a) else None
    if name in ("leftCols",):
        return ALL, ("head", get(0))
    if name == "rightCols":
        return ALL, ("tail", get(0))
    if name == "middleCols":
        return ALL, span(get(0), get(1))
    if name == "topRows":
        return ("head", get(0)), ALL
    if name == "bottomRows":
        return ("tail", get(0)), ALL
    if name == "middleRows":
        return span(get(0), get(1)), ALL
    if name == "block":
        return span(get(0), get(2)), span(get(1), get(3))
    if name in ("topLeftCorner", "topRightCorner", "bottomLeftCorner",
                "bottomRightCorner"):
        return (("head" if "top" in name else "tail", get(0)),
                ("head" if "Left" in name else "tail", get(1)))
    if name == "row":
        return at(get(0)), ALL
    if name == "col":
        return ALL, at(get(0))
    return None


def span(i, n):
    return ANY if i == "any" else ("mid", i, n)


def at(i):
    return ANY if i == "any" else ("mid", i, 1) if isinstance(i, int) \
        else ANY


def region(path, vec):
    """(row interval, column interval) a write to this path assigns."""
    rows = (("S", 0), ("E", 0))
    cols = (("S", 0), ("E", 0))
    isrow = False
    for x in path[1:]:
        if not isinstance(x, tuple):
            if x == "[]":
                rows = sub(rows, PART)
            continue
        if x[0] == "[]":
            ix = x[1] if len(x) > 1 else None
            if isinstance(ix, tuple) and ix and ix[0] == "idx":
                rows = sub(rows, at(num(ix[1])))
                if len(ix) > 2:
                    cols = sub(cols, at(num(ix[2])))
            elif isrow:
                cols = sub(cols, at(num(ix)))
            else:
                rows = sub(rows, at(num(ix)))
            continue
        name = x[1]
        args = [y for y in x[2] if not (isinstance(y, tuple) and y and
                                        y[0] == "ta")]
        if name in FULL_VIEWS or name in ("noalias", "transpose"):
            continue
        if name in ("head", "tail", "segment"):
            a = [num(y) for y in args]
            sel = (name, a[0]) if name != "segment" and a else \
                span(a[0], a[1]) if len(a) > 1 else PART
            if isrow:
                cols = sub(cols, sel)
            else:
                rows = sub(rows, sel)
            continue
        s = selectors(name, args, None)
        if s is None:
            rows = sub(rows, PART)
            continue
        if name == "row":
            isrow = True
        rows, cols = sub(rows, s[0]), sub(cols, s[1])
    return rows, cols


class OutClient(Client):
    loop_min1 = True

    def __init__(self, out):
        self.out = out
        self.where = {}

    def on_loop(self, I, st, node):
        st.cl["L"] = st.cl.get("L", frozenset()) | {node.get("l")}

    def put(self, I, st, path, node, how):
        if path[0] != self.out or how in ("alias", "decl"):
            return
        r = region(path, False)
        st.cl = dict(st.cl)
        w = st.cl.get("w", frozenset())
        if how in ACC:
            if not any(meets(r, x) for x, _ in w):
                st.cl["acc"] = st.cl.get("acc", frozenset()) | {
                    (r, show_path(path), (node or {}).get("l"))}
            return
        self.where[r] = (show_path(path), (node or {}).get("l"))
        L = frozenset()
        if "*" in (r[0][0], r[1][0]):
            L = st.cl.get("L", frozenset())
        st.cl["w"] = w | {(r, L)}

    def write(self, I, st, path, node, how, val=None):
        self.put(I, st, path, node, how)

    def copied(self, I, st, dst, src, node):
        self.put(I, st, dst, node, "=")

    def rename(self, st, old, new):
        pass

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] != "call":
            return None
        n = base(node.get("f") or "")
        v, args, vals = ov, node.get("a", []), avs
        if v is None and node.get("op") in ("[]", "()") and avs:
            v, args, vals = avs[0], args[1:], avs[1:]
        if n in IDX and v is not None and v.path is not None and \
                v.path[0] == self.out and args:
            ks = []
            for x, w in zip(args, vals):
                ks.append(w.k() if literal(x) else ("lit", "any"))
            if n in ("row", "col"):
                return [(st, V(v.path + (("#", n, tuple(ks)),)))]
            ix = ks[0] if len(ks) == 1 else ("idx",) + tuple(ks)
            return [(st, V(v.path + (("[]", ix),)))]
        if n in ("segment", "middleRows", "middleCols", "block") and \
                v is not None and v.path is not None and \
                v.path[0] == self.out and st.cl.get("L") and args and \
                not literal(args[0]):
            # in a loop, the counter stands for all the values it takes
            ks = [("lit", "any") if counter(x) else w.k()
                  for x, w in zip(args, vals)]
            if ("lit", "any") in ks:
                return [(st, V(v.path + (("#", n, tuple(ks)),)))]
        return None

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def inline(self, I, st, node, f, ov, avs):
        # only functions the output reaches
        for v in ([ov] if ov is not None else []) + list(avs):
            if v is not None and (v.path is not None and
                                  (v.path[0] == self.out or
                                   st.cl.get(("holds", norm(v.path[:1])))) or
                                  v.lam is not None):
                return True
        if not (f.get("cls") or f["q"]).startswith(NS):
            return False
        if "_c04s" not in f:
            f["_c04s"] = sum(1 for _ in walk(f.get("body"))) < 40
        return f["_c04s"]


def literal(x):
    while x.get("k") in ("cast", "paren", "implicit") and x.get("x"):
        x = x["x"]
    return x.get("k") == "lit"


def counter(x):
    """A variable that is not a constant."""
    while x.get("k") in ("cast", "paren", "implicit") and x.get("x"):
        x = x["x"]
    return x.get("k") == "var" and x.get("s") in ("l", "p") and \
        not x.get("cq")


def meets(r, x):
    return all(imeets(a, b) for a, b in zip(r, x))


def imeets(a, b):
    for v in (a, b):
        if v[0] in ("*", "?"):
            return True
    (s1, e1), (s2, e2) = a, b
    if s1[0] == e1[0] == s2[0] == e2[0] and all(
            isinstance(z[1], int) for z in (s1, e1, s2, e2)):
        return max(s1[1], s2[1]) < min(e1[1], e2[1])
    return True


def dim_ok(ivs, out, ext):
    """Do these intervals possibly cover the dimension?"""
    if any(v[0] == "*" for v in ivs):
        return True
    ivs = [v for v in ivs if v[0] != "?"]
    if not ivs:
        return False
    if any(v[0] == ("S", 0) and v[1] == ("E", 0) for v in ivs):
        return True

    def right(e):
        return e == ("E", 0) or e[0] == "S" and full_key(e[1], out)
    # chain from the start
    left = [v for v in ivs if v[0] == ("S", 0) or v[0][0] == "S" and
            v[0][1] is None]
    if not left:
        return False
    symb = [v for v in ivs if not isinstance(v[0][1], int) or
            not isinstance(v[1][1], int)]
    if not any(right(v[1]) for v in ivs):
        ends = {v[1] for v in ivs}
        starts = {v[0] for v in ivs}
        if len(ivs) == 1 and symb:
            return False
        ce = [e[1] for e in ends if e[0] == "S" and isinstance(e[1], int)]
        if not symb and ce and ext and max(ce) < ext:
            return False
    if not symb:
        # constant intervals from the start must leave no hole
        pos = 0
        for s, e in sorted(((v[0][1], v[1][1] if v[1][0] == "S" else 1 << 30)
                            for v in ivs if v[0][0] == "S")):
            if s > pos:
                return any(v[0][0] == "E" for v in ivs)
            pos = max(pos, e)
    return True


def run(R, M):
    R.rule("on every returning path the assigned regions of the output "
           "reach both ends of each dimension without a hole")
    R.rule("no region is accumulated into before being assigned")
    R.assume("loops over the rows of a mask, over the functions of a set or "
             "over contacts visit every element")
    R.assume("views given by index sets cover what the index set selects")
    for K, g in evaluations(M):
        out = argname(g, 0)
        c = OutClient(out)
        I = Interp(M, c)
        I.maxsteps = 200000
        name = "%s%s::%s" % (short(K), tag(g), base(g["q"]))
        try:
            outs = I.run(g, V(("this",), cls=K))
        except TooBig as e:
            R.unclear("%s: %s" % (name, e))
            continue
        R.analysed(g)
        R.count("evaluation functions")
        paths = [s for k, s, v in outs if k == "ret"]
        R.count("returning paths", len(paths))
        ext = [0, 0]
        for s in paths:
            for r, L in s.cl.get("w", ()):
                for d in (0, 1):
                    e = r[d][1]
                    if isinstance(e, tuple) and e[0] == "S" and \
                            isinstance(e[1], int):
                        ext[d] = max(ext[d], e[1])
        star = {(r, L) for s in paths for r, L in s.cl.get("w", ())
                if "*" in (r[0][0], r[1][0])}
        for s in paths:
            w = {r for r, L in s.cl.get("w", ())}
            w |= {r for r, L in star if L <= s.cl.get("L", frozenset())}
            for r, p, l in sorted(s.cl.get("acc", ()), key=str):
                R.bad("%s:%s:accumulate:%s" % (short(K), base(g["q"]), p),
                      "%s accumulates into %s, which it has not assigned" %
                      (name, p), g["file"], l)
            bad = short_dim(w, out, ext)
            R.check(bad is None, "%s:%s:%s" % (short(K), base(g["q"]), bad),
                    "%s leaves %s of its output unassigned on a path "
                    "(assigned: %s)" % (name, bad, ", ".join(sorted(
                        c.where.get(r, ("?",))[0] for r in w)) or "nothing"),
                    g["file"], g["line"],
                    trace=["decisions of the path: " + ", ".join(sorted(
                        "%s=%s" % (show_key(k), v)
                        for k, v in s.facts.items()))[:600]],
                    text="%s: %d regions" % (name, len(w)))


def short_dim(w, out, ext):
    if not w:
        return "everything"
    if not dim_ok([r[0] for r in w], out, ext[0]):
        return "rows"
    # columns, for each group of rows
    for r in w:
        same = [x[1] for x in w if rcovers(x[0], r[0])]
        if not dim_ok(same, out, ext[1]):
            return "columns"
    return None


def rcovers(a, b):
    """Rows a include rows b (possibly)."""
    if a == b or a[0] == "*" or b[0] == "*" or a[0] == "?":
        return True
    if a == (("S", 0), ("E", 0)):
        return True
    return imeets(a, b) and not (a[0][0] == a[1][0] == b[0][0] == b[1][0])
