"""C22: derived functions keep value and Jacobian consistent."""
from ..interp import Client, Interp, NOC, TooBig, V, covers, norm, show_key, \
    show_path
from ..model import short, walk
from ..util import DF, NS, base, own_classes, tag

EXPLAIN = """For every function that evaluates another differentiable function
the value and the Jacobian code are interpreted on all paths; each evaluation
of an inner function is recorded with the symbolic content of the argument it
receives (views of the argument, copies through buffers followed), the branch
decisions on data members, the sign with which the result enters and, for
Jacobians, the columns written. The two sets of records must agree: same inner
functions, same arguments under compatible decisions, same sign, velocity
interval that goes with the configuration interval."""

EXP = NS + "Explicit"
VAL = ("value", "impl_compute", "operator()")
JAC = ("jacobian", "impl_jacobian")


class Rec:
    def __init__(self, obj, arg, out, facts, g, node, st):
        self.obj, self.arg, self.out, self.facts = obj, arg, out, facts
        self.g, self.node = g, node
        self.neg = False


class Inner(Client):
    loop_min1 = True

    def __init__(self, M, roles, out):
        self.M = M
        self.roles = roles          # "arg:name" -> canonical name
        self.out = out
        self.recs = []
        self.outkeys = []
        self.ptr = {}

    # ------------------------------------------------------------ content
    def canon(self, k):
        if not isinstance(k, tuple) or not k:
            return k
        if k[0] == "path" and len(k) == 2:
            return ("path", self.cpath(k[1]))
        if k[0] == "ctor" and len(k[2]) == 1 and \
                k[1].startswith(("Eigen::", "pinocchio::")) and \
                k[2][0][0] in ("path", "ctor", "eval"):
            return self.canon(k[2][0])      # converted copy
        return tuple(self.canon(x) if isinstance(x, tuple) else x for x in k)

    def cpath(self, p):
        out = []
        for n, x in enumerate(p):
            if isinstance(x, tuple):
                if x[0] == "#":
                    out.append(("#", x[1], tuple(self.canon(y)
                                                 for y in x[2])))
                elif len(x) > 1:
                    out.append(("[]", self.canon(x[1])))
                else:
                    out.append(x)
            else:
                if n == 0 and x in self.roles:
                    x = self.roles[x]
                out.append(x.split("#")[0] if n == 0 else x)
        return tuple(out)

    def content(self, st, v):
        if v is None:
            return ("?",)
        p = v.path
        if p is None:
            return self.canon(v.k())
        n = norm(p)
        src = dict(st.cl.get("src") or ())
        hit = [(a, k) for a, k in src.items() if covers(n, a) or
               covers(a, n)]
        if len(hit) > 1:
            hit = [(a, k) for a, k in hit
                   if k[0] != "ctor"] or hit
        if hit:
            return tuple(sorted(((str(a[len(n):]), k) for a, k in hit),
                                key=repr)) \
                if len(hit) > 1 or hit[0][0] != n else hit[0][1]
        return ("path", self.cpath(p))

    def setsrc(self, st, p, k):
        src = dict(st.cl.get("src") or ())
        n = norm(p)
        for a in [a for a in src if covers(n, a)]:
            del src[a]
        if k is not None:
            src[n] = k
        st.cl = dict(st.cl)
        st.cl["src"] = frozenset(src.items())

    # -------------------------------------------------------------- hooks
    def track_scal(self, path, v):
        return isinstance(v, bool)

    def track_fact(self, key):
        return key[0] == "truth" and key[1][0] == "path" and \
            key[1][1][0] == "this"

    def write(self, I, st, path, node, how, val=None):
        if how in ("alias", "rebind"):
            return
        if path[0] == self.out:
            if how == "*=" and val is not None and val.const is not NOC \
                    and val.const == -1:
                for r in self.recs:
                    if r.out is not None and same_view(r.out, path) and \
                            compatible(r.facts, st.facts):
                        r.neg = True
            elif how == "=" and val is not None:
                self.outkeys.append(val.k())
        if val is None:
            self.setsrc(st, path, ("?", norm(path)))
        else:
            self.setsrc(st, path, self.content(st, val))

    def copied(self, I, st, dst, src, node):
        self.setsrc(st, dst, self.content(st, V(src)))

    def rename(self, st, old, new):
        src = dict(st.cl.get("src") or ())
        if any(a[0] == old for a in src):
            st.cl = dict(st.cl)
            st.cl["src"] = frozenset(
                ((new,) + a[1:] if a[0] == old else a, k)
                for a, k in src.items())

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def pre_call(self, I, st, node, ov, avs):
        if node["k"] == "ctor" or ov is None or ov.path is None:
            return None
        f = node.get("f") or ""
        n = base(f)
        if n not in VAL and n not in JAC:
            return None
        c = f.rsplit("::", 1)[0].split("<")[0]
        if ov.path == ("this",) or not (c == DF or c in
                                        self.M.descendants(DF)):
            return None
        if n == "operator()":
            arg, out = avs[0] if avs else None, None
        elif len(avs) >= 2:
            arg, out = avs[1], avs[0]
        else:
            return None
        fs = {k: v for k, v in st.facts.items() if self.track_fact(k)}
        r = Rec(self.cpath(norm(ov.path)), self.content(st, arg),
                out.path if out is not None else None, fs,
                I.stack[-1][0], node, st)
        r.jac = n in JAC
        self.recs.append(r)
        if out is not None and out.path is not None:
            self.setsrc(st, out.path, ("eval", n in JAC, r.obj, r.arg))
            st.forget(out.path)
        return [(st, V(key=("eval", r.obj, r.arg)))]


def same_view(a, b):
    """Views of the output that select the same columns."""
    sa = [x for x in a if isinstance(x, tuple)]
    sb = [x for x in b if isinstance(x, tuple)]
    return not sb or sa == sb


def compatible(a, b):
    return all(b.get(k, v) == v for k, v in a.items())


def sign_of(k, obj, arg):
    """Sign with which the evaluation enters a key; None if unknown."""
    if not isinstance(k, tuple) or not k:
        return None
    if k == ("eval", False, obj, arg) or k == ("eval", obj, arg):
        return 1
    if k[0] == "bin" and k[1] in ("+", "-"):
        a = sign_of(k[2], obj, arg)
        if a is not None:
            return a
        b = sign_of(k[3], obj, arg)
        return b if b is None or k[1] == "+" else -b
    if k[0] == "call" and base(k[1] or "") in ("operator-", "operator+"):
        parts = list(k[3])
        if k[2] and not str(k[2][0]).startswith("?"):
            parts.insert(0, k[2])
        if len(parts) == 1 and base(k[1]) == "operator-":
            s = sign_of(parts[0], obj, arg)
            return None if s is None else -s
        for n, x in enumerate(parts):
            s = sign_of(x, obj, arg)
            if s is not None:
                return -s if n == 1 and base(k[1]) == "operator-" else s
    return None


def arg_sign(k):
    """Sign of the derivative of the argument key w.r.t. the parameter."""
    if not isinstance(k, tuple) or not k:
        return None
    if k[0] == "path" and k[1] and k[1][0] == "Q":
        return 1
    if k[0] == "bin" and k[1] in ("+", "-"):
        a, b = arg_sign(k[2]), arg_sign(k[3])
        if a is not None:
            return a
        if b is not None:
            return b if k[1] == "+" else -b
        return None
    if len(k) == 1 and isinstance(k[0], tuple) and len(k[0]) == 2:
        return arg_sign(k[0][1])
    return None


def uses_inner(M, K):
    dfs = {DF} | set(M.descendants(DF))
    for m in M.methods(K):
        for n in walk(m.get("body") or {}):
            if n["k"] == "call" and base(n.get("f") or "") in JAC + VAL and \
                    n["f"].rsplit("::", 1)[0].split("<")[0] in dfs and \
                    n.get("o") is not None and \
                    n["o"].get("k") != "this":
                return True
    return False


def pairs(M):
    for K in own_classes(M, DF):
        if not uses_inner(M, K):
            continue
        a = [f for f in M.methods(K, "impl_compute") if f.get("body")]
        b = [f for f in M.methods(K, "impl_jacobian") if f.get("body")]
        for f in a:
            for g in b:
                if f.get("cta") == g.get("cta"):
                    yield K, f, {f["ps"][1]["n"]: "Q"}, f["ps"][0]["n"], \
                        g, {g["ps"][1]["n"]: "Q"}, g["ps"][0]["n"]
    for K in own_classes(M, EXP):
        a = [f for f in M.methods(K, "outputValue") if f.get("body")]
        b = [f for f in M.methods(K, "jacobianOutputValue") if f.get("body")]
        for f in a:
            for g in b:
                yield K, f, {f["ps"][1]["n"]: "Q"}, f["ps"][0]["n"], \
                    g, {g["ps"][0]["n"]: "Q"}, g["ps"][3]["n"]


def analyse(R, M, K, f, roles, out):
    c = Inner(M, {"arg:" + a: b for a, b in roles.items()}, "arg:" + out)
    I = Interp(M, c)
    I.maxsteps = 200000
    try:
        I.run(f, V(("this",), cls=K))
    except TooBig as e:
        R.unclear("%s: %s" % (short(f["q"]), e))
        return None
    return c


def known(k):
    if isinstance(k, tuple):
        return "?" not in k[:1] and all(known(x) for x in k)
    return True


def run(R, M):
    R.rule("value and Jacobian evaluate the same inner functions at the same "
           "argument")
    R.rule("the Jacobian of an inner function enters with the sign of its "
           "value times that of its argument")
    R.rule("the columns written belong to the velocity interval that goes "
           "with the configuration interval read")
    for K, f, fr, fo, g, gr, go in pairs(M):
        cv = analyse(R, M, K, f, fr, fo)
        cj = analyse(R, M, K, g, gr, go)
        if cv is None or cj is None:
            continue
        vs = [r for r in cv.recs if not r.jac]
        js = [r for r in cj.recs if r.jac]
        if not js or not vs:
            continue
        R.analysed(f)
        R.analysed(g)
        R.count("function pairs")
        name = short(K)
        for r in js:
            loc = (r.g["file"], r.node.get("l"))
            same = [v for v in vs if v.obj == r.obj and
                    compatible(v.facts, r.facts)]
            if not same:
                if any(len(o) < 2 for o in [r.obj] + [v.obj for v in vs]):
                    R.unclear("%s: inner function not identified" % name)
                    continue
                R.bad("%s:function" % name, "the Jacobian of %s uses %s, "
                      "which its value does not evaluate" % (
                          name, show_path(r.obj)), *loc)
                continue
            if not known(r.arg) or not all(known(v.arg) for v in same):
                R.unclear("%s: argument of %s not resolved" % (
                    name, show_path(r.obj)))
                continue
            R.check(any(v.arg == r.arg for v in same), "%s:argument" % name,
                    "the Jacobian of %s evaluates %s at %s, its value at %s"
                    % (name, show_path(r.obj), show_arg(r.arg),
                       " or ".join(sorted({show_arg(v.arg) for v in same}))),
                    *loc, text="%s: %s at %s" % (name, show_path(r.obj),
                                                 show_arg(r.arg)))
        for v in vs:
            loc = (v.g["file"], v.node.get("l"))
            same = [r for r in js if v.obj == r.obj and
                    compatible(v.facts, r.facts)]
            if not same or not known(v.arg) or not all(
                    known(r.arg) for r in same):
                if not same:
                    R.unclear("%s: %s enters the value only" % (
                        name, show_path(v.obj)))
                continue
            R.check(any(v.arg == r.arg for r in same), "%s:missing" % name,
                    "the Jacobian of %s does not evaluate %s at %s as its "
                    "value does" % (name, show_path(v.obj), show_arg(v.arg)),
                    *loc)
        signs(R, name, cv, cj, vs, js)
        columns(R, M, K, name, vs, js)


def show_arg(k):
    if isinstance(k, tuple) and k and isinstance(k[0], tuple):
        return "[" + ", ".join(show_arg(x[1]) for x in k) + "]"
    return show_key(k)


def signs(R, name, cv, cj, vs, js):
    for r in js:
        if r.out is None or r.out[0] != cj.out:
            continue        # goes through a buffer
        vsame = [v for v in vs if v.obj == r.obj and v.arg == r.arg and
                 compatible(v.facts, r.facts)]
        if not vsame:
            continue
        v = vsame[0]
        sv = 1 if v.out is not None and v.out[0] == cv.out else None
        if sv is None:
            for k in cv.outkeys:
                k2 = resolve(k, vs)
                sv = sign_of(k2, v.obj, v.arg)
                if sv is not None:
                    break
        sa = arg_sign(r.arg)
        if sv is None or sa is None:
            R.unclear("%s: sign of %s not resolved" % (name,
                                                       show_path(r.obj)))
            continue
        R.check((-1 if r.neg else 1) == sv * sa, "%s:sign" % name,
                "the Jacobian of %s counts %s at %s with the wrong sign" % (
                    name, show_path(r.obj), show_arg(r.arg)),
                r.g["file"], r.node.get("l"))


def resolve(k, vs):
    """Replace the buffers values were computed in by the evaluation."""
    if not isinstance(k, tuple) or not k:
        return k
    if k[0] == "path" and len(k) == 2:
        for v in vs:
            if v.out is not None and norm(v.out) == norm(k[1]):
                return ("eval", False, v.obj, v.arg)
        return k
    return tuple(resolve(x, vs) if isinstance(x, tuple) else x for x in k)


def interval(k):
    """Member holding the interval a view selects: f.segment(x.first, ..)."""
    p = k[1] if k and k[0] == "path" else k
    for x in p or ():
        if isinstance(x, tuple) and x[0] == "#" and len(x[2]) >= 2:
            a, b = x[2][:2]
            ms = [y[1][1] for y in (a, b) if y[0] == "path" and
                  len(y[1]) == 3 and y[1][0] == "this"]
            if len(ms) == 2:
                return ms
    return None


def params(M, K):
    """Member -> index of the constructor parameter it is copied from."""
    out = {}
    for g in M.methods(K, base(K)):
        ps = [p["n"] for p in g["ps"]]
        if len(ps) < 3:
            continue
        for it in g.get("inits") or []:
            vs = [n.get("n") for n in walk(it.get("x") or {})
                  if n["k"] == "var" and n.get("n") in ps]
            if it.get("m") and len(set(vs)) == 1:
                out[it["m"]] = ps.index(vs[0])
    return out


def columns(R, M, K, name, vs, js):
    pm = params(M, K)
    for r in js:
        loc = (r.g["file"], r.node.get("l"))
        ia = interval(r.arg)
        io = interval(("path", r.out)) if r.out else None
        for i in (ia, io):
            if i and i[0] != i[1]:
                R.bad("%s:mixed" % name, "%s combines the start of %s with "
                      "the length of %s" % (name, i[0], i[1]), *loc)
        if not ia or not io or ia[0] not in pm or io[0] not in pm:
            continue
        R.check(pm[io[0]] == pm[ia[0]] + 1, "%s:columns" % name,
                "the Jacobian of %s writes the columns %s for the argument "
                "interval %s" % (name, io[0], ia[0]), *loc,
                text="%s: %s with %s" % (name, ia[0], io[0]))
