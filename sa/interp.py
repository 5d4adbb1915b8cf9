"""Path-sensitive abstract interpreter over the extracted syntax trees.

Objects are access paths (tuples): ('this','m_','[]',...). References,
pointers, smart pointers, iterators and matrix views denote the path of what
they refer to. Repository functions are inlined (bounded depth, no recursion),
functions outside the repository have default semantics derived from their
signature (const object / const arguments are read, the others written).
Scalars are tracked as constants, comparisons as boolean facts that are
forgotten as soon as something they mention is written. No solver is involved.
"""
import functools
import re

from .model import walk

NOC = "<none>"
MAXDEPTH = 14
CAP = 160

# external non-const methods that only give access
ACCESSORS = {
    "begin", "end", "rbegin", "rend", "cbegin", "cend", "front", "back", "at",
    "find", "lower_bound", "upper_bound", "equal_range", "get", "data",
    "lock", "head", "tail", "segment", "block", "row", "col", "leftCols",
    "rightCols", "middleCols", "middleRows", "topRows", "bottomRows",
    "topLeftCorner", "topRightCorner", "bottomLeftCorner",
    "bottomRightCorner", "matrix", "array", "noalias", "derived",
    "const_cast_derived", "transpose", "diagonal", "vector", "lview", "rview",
    "value", "translation", "rotation", "linear", "angular", "coeffRef", "coeff",
    "transposeInPlace_", "triangularView", "selfadjointView", "rowwise",
    "colwise", "reshaped", "x", "y", "z", "w", "segments", "eval", "size", "rows", "cols",
    "base", "innerVector", "transformationRef",
}
FULL_VIEWS = {"matrix", "array", "noalias", "derived", "const_cast_derived",
              "vector", "get", "lock", "value", "eval", "base", "coeffs"}
ELEM = {"front", "back", "at", "begin", "end", "rbegin", "rend", "cbegin",
        "cend", "find", "lower_bound", "upper_bound", "coeffRef", "coeff",
        "next", "prev"}
PASS_FUNCS = {
    "std::dynamic_pointer_cast", "std::static_pointer_cast",
    "std::const_pointer_cast", "std::move", "std::forward", "std::ref",
    "std::cref", "std::addressof", "std::as_const",
    "boost::dynamic_pointer_cast", "boost::static_pointer_cast",
    "std::begin", "std::end", "std::get", "std::next", "std::prev",
    "std::__addressof",
}
ALIAS_RECS = ("std::shared_ptr", "std::weak_ptr", "std::unique_ptr",
              "boost::shared_ptr", "std::reference_wrapper",
              "std::__shared_ptr")


def is_alias_type(t):
    """t: node carrying type attributes."""
    if t.get("ref") or t.get("ptr") or t.get("vw"):
        return True
    r = t.get("r") or ""
    return r in ALIAS_RECS or "iterator" in r.lower()


def is_ptr_type(t):
    r = t.get("r") or ""
    return bool(t.get("ptr")) or r in ALIAS_RECS or "iterator" in r.lower()


SCALARS = ("bool", "int", "float")
SCALAR_T = ("bool", "int", "size_type", "std::size_t", "value_type", "double",
            "unsigned long", "long", "float", "unsigned int", "const size_type",
            "const value_type", "const bool")


class V:
    __slots__ = ("path", "const", "key", "lam", "cls", "tmp")

    def __init__(self, path=None, const=NOC, key=None, lam=None, cls=None,
                 tmp=False):
        self.path = path
        self.const = const
        self.key = key
        self.lam = lam
        self.cls = cls
        self.tmp = tmp

    def k(self):
        if self.const is not NOC:
            return ("lit", self.const)
        if self.key is not None:
            return self.key
        if self.path is not None:
            return ("path", self.path)
        return ("?",)

    def __repr__(self):
        return "V(%s)" % show_key(self.k())


@functools.lru_cache(maxsize=None)
def norm(path):
    """Path without view selectors, all element selectors merged."""
    out = []
    for x in path:
        if isinstance(x, tuple):
            if x[0] == "#":
                continue
            out.append("[]")
        else:
            out.append(x)
    return tuple(out)


@functools.lru_cache(maxsize=None)
def overlap(a, b):
    a = norm(a)
    b = norm(b)
    n = min(len(a), len(b))
    return a[:n] == b[:n]


@functools.lru_cache(maxsize=None)
def covers(a, b):
    """a is b or an enclosing object of b."""
    a = norm(a)
    b = norm(b)
    return b[:len(a)] == a


def squash(path):
    """x.parent.parent... denotes some ancestor: keep the step once."""
    out = []
    for x in path:
        n = x[:2] if isinstance(x, tuple) else x
        if out:
            m = out[-1][:2] if isinstance(out[-1], tuple) else out[-1]
            if n == m and n != "[]":
                continue
        out.append(x)
    return tuple(out)


def anyelem(k):
    """Does the key mention an unspecified element of a container?"""
    if isinstance(k, tuple):
        return any(x == "[]" and n and k[0] != "[]" or anyelem(x)
                   for n, x in enumerate(k))
    return False


@functools.lru_cache(maxsize=None)
def deps(key):
    out = set()
    if isinstance(key, tuple):
        if len(key) == 2 and key[0] == "path":
            out.add(key[1])
            for x in key[1]:
                if isinstance(x, tuple):
                    out |= deps(x)
        else:
            for x in key:
                if isinstance(x, tuple):
                    out |= deps(x)
    return frozenset(out)


@functools.lru_cache(maxsize=None)
def ksize(key):
    if isinstance(key, tuple):
        return 1 + sum(ksize(x) for x in key)
    return 1


def show_path(p):
    if p is None:
        return "?"
    s = ""
    for x in p:
        if isinstance(x, tuple):
            if x[0] == "#":
                s += ".%s(%s)" % (x[1], ",".join(show_key(y) for y in x[2]))
            else:
                s += "[%s]" % (show_key(x[1]) if len(x) > 1 else "")
        elif x == "[]":
            s += "[]"
        else:
            s += ("." if s else "") + x.split("#")[0]
    return s


def show_key(k):
    if not isinstance(k, tuple):
        return str(k)
    if not k:
        return "()"
    if k[0] == "path" and len(k) == 2:
        return show_path(k[1])
    if k[0] == "lit":
        return str(k[1])
    if k[0] == "bin":
        return "(%s %s %s)" % (show_key(k[2]), k[1], show_key(k[3]))
    if k[0] == "call":
        return "%s.%s(%s)" % (show_key(k[2]), k[1].split("::")[-1],
                              ",".join(show_key(x) for x in k[3]))
    return "<%s>" % ",".join(show_key(x) for x in k)


class State:
    __slots__ = ("env", "scal", "skey", "facts", "cl", "dyn")

    def __init__(self):
        self.env = {}
        self.scal = {}
        self.skey = {}
        self.facts = {}
        self.cl = {}
        self.dyn = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.scal = dict(self.scal)
        s.skey = dict(self.skey)
        s.facts = dict(self.facts)
        s.cl = dict(self.cl)
        s.dyn = dict(self.dyn)
        return s

    def sig(self):
        return (frozenset((k, v.path, v.lam and id(v.lam[0])) for k, v in self.env.items()),
                frozenset(self.scal.items()),
                frozenset(self.skey.items()),
                frozenset(self.facts.items()),
                frozenset(self.cl.items()))

    def forget(self, path):
        """Drop all knowledge about the objects that overlap path."""
        for d in (self.scal, self.skey):
            for p in [p for p in d if overlap(p, path)]:
                del d[p]
        for p in [p for p, k in self.skey.items()
                  if any(overlap(x, path) for x in deps(k))]:
            del self.skey[p]
        for k in [k for k in self.facts
                  if any(overlap(x, path) for x in deps(k))]:
            del self.facts[k]
        # element selectors depend on indices
        if len(path) == 1 or True:
            for k, v in list(self.env.items()):
                if v.path and any(isinstance(x, tuple) and x[0] == "[]" and
                                  len(x) > 1 and
                                  any(overlap(y, path) for y in deps(x[1]))
                                  for x in v.path):
                    v2 = V(tuple("[]" if isinstance(x, tuple) and x[0] == "[]"
                                 else x for x in v.path), key=None,
                           lam=v.lam, cls=v.cls)
                    self.env[k] = v2


    def advance(self, path):
        """An iterator that denotes path moves to another element."""
        if path[-1] != "[]":
            return self.forget(path)
        n = len(path)
        for d in (self.scal, self.skey):
            for p in [p for p in d if p[:n] == path]:
                del d[p]
        for p in [p for p, k in self.skey.items()
                  if any(x[:n] == path for x in deps(k))]:
            del self.skey[p]
        for k in [k for k in self.facts
                  if any(x[:n] == path for x in deps(k))]:
            del self.facts[k]


class Client:
    """Hooks. The default client records nothing."""
    assume_asserts = True
    loop_min1 = False

    def read(self, I, st, path, node):
        pass

    def write(self, I, st, path, node, how, val=None):
        pass

    def copied(self, I, st, dst, src, node):
        pass

    def pre_call(self, I, st, node, ov, avs):
        """May return a list of (state, V) that replaces the call."""
        return None

    def post_call(self, I, st, node, ov, avs, res):
        pass

    def inline(self, I, st, node, f, ov, avs):
        return True

    def virtual(self, I, st, node, cands, ov, avs):
        """Which of the candidates of an unresolved virtual call to inline."""
        return cands if len(cands) == 1 else []

    def may_throw(self, I, st, node, f):
        return ()

    def on_loop(self, I, st, node):
        pass

    def on_body(self, I, st, node):
        """An iteration of the loop begins in state st."""

    def on_next(self, I, st, node):
        """The iteration of the loop ends in state st, without leaving it."""

    def decided(self, I, st, key, value):
        """The path assumes that the condition key has this value."""
        pass

    def choose(self, I, st, key):
        """Truth value of an undecided condition in the case considered."""
        return None

    def guess(self, I, st, key):
        """The path forks on a condition that is not understood."""

    def unknown_loop(self, I, st, base, s):
        """A range loop whose number of iterations is not known."""

    def extent(self, I, st, path):
        """Number of elements of a container, when loops over it shall be
        followed element by element."""
        return None

    def known(self, st, path):
        """Constant the client knows a variable to have."""
        return None

    def index(self, I, st, key):
        """Key of an element or view argument, as it shall appear in paths."""
        return key

    def throws(self, I, st, node):
        pass

    temps = False       # tell of temporaries bound to references

    def track_scal(self, path, v):
        """Keep states apart that differ in this known scalar?"""
        return False

    def track_fact(self, key):
        return False

    def rename(self, st, old, new):
        """Rewrite paths in client data (value returned from a callee)."""
        pass

    def extern(self, I, st, node, ov, avs):
        """Override semantics of an external call: list of (state,V)/None"""
        return None


class TooBig(Exception):
    pass


class Interp:
    def __init__(self, model, client):
        self.M = model
        self.C = client
        self.depth = 0
        self.stack = []      # functions being interpreted
        self.thrown = []     # (state, type) raised while evaluating
        self.steps = 0
        self.maxsteps = 400000
        self.inlined = set()
        self.sites = 0

    # ------------------------------------------------------------ entry
    def run(self, f, this=None, args=None, st=None):
        """Interprets function f; returns a list of (kind, state, V)."""
        st = st or State()
        if this is None and f.get("cls") and not f.get("static"):
            this = V(("this",), cls=None)
        avs = []
        for n, p in enumerate(f["ps"]):
            if args is not None and n < len(args) and args[n] is not None:
                avs.append(args[n])
            else:
                avs.append(V(("arg:" + (p["n"] or str(n)),)))
        return self.body(f, this, avs, st, None)

    def body(self, f, this, avs, st, node):
        self.depth += 1
        self.stack.append((f, node))
        d = self.depth
        outs = []
        try:
            st = st.copy()
            st.env[(d, "this")] = this or V(("this",))
            for p, a in zip(f["ps"], avs):
                self.bind(st, p, a, node)
            inits = [("n", st, None)]
            if f.get("inits"):
                inits = self.ctor_inits(f, st, this)
            for kind, s, val in inits:
                if kind != "n":
                    outs.append((kind, s, val))
                    continue
                for k2, s2, v2 in self.exec(f.get("body"), s):
                    outs.append((k2, s2, v2))
        finally:
            self.depth -= 1
            self.stack.pop()
        res = []
        groups = {}
        for kind, s, val in outs:
            if kind == "n":
                kind, val = "ret", None
            for k in [k for k in s.env if k[0] == d]:
                del s.env[k]
            if kind == "ret" and isinstance(val, V) and val.path and \
                    val.path[0].startswith("L%d." % d):
                new = "R%d.%s" % (self.depth, f["q"].rsplit("::", 1)[-1])
                old = val.path[0]
                s.forget((new,))
                self.rename(s, old, new)
                val = V((new,) + val.path[1:], val.const,
                        val.key if f.get("rt") in SCALAR_T else None, val.lam,
                        val.cls, True)
            pre = "L%d." % d
            for dd in (s.scal, s.skey, s.dyn):
                for p in [p for p in dd if p[0].startswith(pre)]:
                    del dd[p]
            for p in [p for p, k in s.skey.items()
                      if any(x[0].startswith(pre) for x in deps(k))]:
                del s.skey[p]
            for k in [k for k in s.facts
                      if any(x[0].startswith(pre) for x in deps(k))]:
                del s.facts[k]
            if isinstance(val, V) and val.key is not None and \
                    any(x[0].startswith(pre) for x in deps(val.key)):
                val = V(val.path, val.const, None, val.lam, val.cls, val.tmp)
            vk = (kind, (val.path, val.const, val.key, val.cls,
                         val.lam and id(val.lam[0]))
                  if isinstance(val, V) else val)
            groups.setdefault(vk, []).append((s, val))
        for (kind, _), lst in groups.items():
            for s in self.dedupe([x for x, _ in lst]):
                res.append((kind, s, lst[0][1]))
        return res

    def rename(self, s, old, new):
        for dd in (s.scal, s.skey, s.dyn):
            for p in [p for p in dd if p[0] == old]:
                dd[(new,) + p[1:]] = dd.pop(p)
        self.C.rename(s, old, new)

    def bind(self, st, p, a, node):
        d = self.depth
        if is_alias_type(p) or a.lam is not None:
            if a.path is None:
                old = a
                a = V(("T%d.%s" % (d, p["n"]),), a.const, a.key, a.lam, a.cls)
                if self.C.temps:
                    self.C.write(self, st, a.path, node, "decl", old)
            st.env[(d, p["i"])] = a
            if a.cls:
                st.dyn[norm(a.path)] = a.cls
            return
        lp = ("L%d.%s#%s" % (d, p["n"], p["i"]),)
        if p.get("r") in SCALARS or a.path is None:
            self.setscal(st, lp, a)
        else:
            st.forget(lp)
            self.C.copied(self, st, lp, a.path, node)

    def setscal(self, st, path, v):
        st.forget(path)
        if v.const is not NOC:
            st.scal[path] = v.const
        else:
            k = v.k()
            if k != ("?",) and k != ("path", path) and ksize(k) < 60 and \
                    not any(overlap(x, path) for x in deps(k)):
                st.skey[path] = k

    # ------------------------------------------------------- constructors
    def ctor_inits(self, f, st, this):
        outs = []
        work = [st]
        for i in f["inits"]:
            nxt = []
            for s in work:
                x = i.get("x")
                if i.get("m"):
                    p = this.path + (i["m"],)
                    for s2, v in (self.eval(x, s) if x else [(s, V())]):
                        if v.path and not v.tmp:
                            self.C.read(self, s2, v.path, x)
                        s2.forget(p)
                        self.C.write(self, s2, p, x or i, "init", v)
                        if v.const is not NOC:
                            s2.scal[p] = v.const
                        nxt.append(s2)
                elif i.get("b") or i.get("d"):
                    nxt += self.base_ctor(x, s, this)
                else:
                    nxt.append(s)
                outs += [("thr", t[0], t[1]) for t in self.drain()]
            work = self.dedupe(nxt)
        return outs + [("n", s, None) for s in work]

    def base_ctor(self, x, s, this):
        if not x or x.get("k") != "ctor":
            return [s]
        res = []
        f = self.M.definition(x.get("u"))
        for s2, avs in self.evaln(x.get("a", []), s):
            if f and self.can_inline(f):
                for kind, s3, val in self.body(f, this, avs, s2, x):
                    if kind == "thr":
                        self.thrown.append((s3, val))
                    else:
                        res.append(s3)
            else:
                for a in avs:
                    if a.path:
                        self.C.read(self, s2, a.path, x)
                res.append(s2)
        return res

    def can_inline(self, f):
        if f.get("body") is None and not f.get("inits"):
            return False
        if self.depth >= MAXDEPTH:
            return False
        if any(g is f for g, _ in self.stack):
            return False
        return True

    # ---------------------------------------------------------- statements
    def drain(self):
        t, self.thrown = self.thrown, []
        return t

    def gkey(self, s):
        """States with the same key are merged at joins."""
        C = self.C
        return (frozenset(s.cl.items()),
                frozenset((k, v.path, v.lam and id(v.lam[0]))
                          for k, v in s.env.items()),
                frozenset((p, v) for p, v in s.scal.items()
                          if C.track_scal(p, v)),
                frozenset((k, v) for k, v in s.facts.items()
                          if C.track_fact(k)))

    def merge_into(self, g, s):
        """g := g join s; True if g lost information."""
        ch = False
        for attr in ("scal", "skey", "facts", "dyn"):
            a, b = getattr(g, attr), getattr(s, attr)
            for x in [x for x in a if b.get(x, NOC) != a[x]]:
                del a[x]
                ch = True
        return ch

    def dedupe(self, states):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            k = self.gkey(s)
            g = groups.get(k)
            if g is None:
                groups[k] = s
            else:
                g = groups[k] = g.copy()
                self.merge_into(g, s)
        out = list(groups.values())
        if len(out) > CAP * 4:
            raise TooBig("more than %d abstract states" % (4 * CAP))
        return out

    def exec(self, s, st):
        """-> list of (kind, state, payload)"""
        if not s:
            return [("n", st, None)]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooBig("more than %d steps" % self.maxsteps)
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            return [("n", st, None)]
        out = m(s, st)
        if self.thrown:
            out = out + [("thr", t[0], t[1]) for t in self.drain()]
        if len(out) > 8:
            out = self.merge_outcomes(out)
        return out

    def merge_outcomes(self, out):
        groups = {}
        order = []
        for kind, s, val in out:
            vk = (kind, (val.path, val.const, val.key, val.cls,
                         val.lam and id(val.lam[0]))
                  if isinstance(val, V) else val)
            if vk not in groups:
                groups[vk] = []
                order.append((vk, val))
            groups[vk].append(s)
        return [(vk[0], s, val) for vk, val in order
                for s in self.dedupe(groups[vk])]

    def s_nop(self, s, st):
        return [("n", st, None)]

    def s_blk(self, s, st):
        return self.seq(s["s"], [st])

    def seq(self, stmts, states):
        out = []
        work = states
        for c in stmts:
            if not work:
                break
            nxt = []
            for x in work:
                for kind, y, p in self.exec(c, x):
                    if kind == "n":
                        nxt.append(y)
                    else:
                        out.append((kind, y, p))
            work = self.dedupe(nxt)
        return out + [("n", x, None) for x in work]

    def s_expr(self, s, st):
        return [("n", x, None) for x, _ in self.eval(s["x"], st)]

    def s_decl(self, s, st):
        work = [st]
        for v in s["d"]:
            nxt = []
            for x in work:
                nxt += self.decl(v, x)
            work = nxt
        return [("n", x, None) for x in work]

    def decl(self, v, st):
        d = self.depth
        lp = ("L%d.%s#%s" % (d, v["n"], v["i"]),)
        res = []
        if v.get("r") == "bool" and not v.get("ref") and v.get("x") and \
                v["x"].get("k") not in ("lit",):
            for s2, b in self.cond(v["x"], st):
                s2 = s2.copy()
                s2.env.pop((d, v["i"]), None)
                self.setscal(s2, lp, V(const=b) if b is not None else V())
                self.C.write(self, s2, lp, v, "decl", V(const=b))
                res.append(s2)
            return res
        x = v.get("x")
        for s2, val in (self.eval(x, st, lv=is_alias_type(v)) if x
                        else [(st, V())]):
            s2 = s2.copy()
            s2.env.pop((d, v["i"]), None)
            if val.lam is not None:
                s2.env[(d, v["i"])] = val
            elif is_alias_type(v) and (val.path is not None):
                s2.env[(d, v["i"])] = V(val.path, key=None, cls=val.cls)
                if val.cls:
                    s2.dyn[norm(val.path)] = val.cls
                self.C.write(self, s2, lp, v, "alias", val)
            else:
                if val.path is not None and not is_alias_type(v):
                    self.use(s2, val, x)
                self.setscal(s2, lp, val if (v.get("r") in SCALARS or
                                             val.const is not NOC or
                                             val.path is None)
                             else V())
                if val.path is not None and v.get("r") not in SCALARS:
                    self.C.copied(self, s2, lp, val.path, v)
                self.C.write(self, s2, lp, v, "decl", val)
                if val.cls:
                    s2.dyn[lp] = val.cls
            res.append(s2)
        return res

    def s_if(self, s, st):
        out = []
        work = [st]
        if s.get("init"):
            r = self.exec(s["init"], st)
            work = [y for k, y, p in r if k == "n"]
            out += [z for z in r if z[0] != "n"]
        if s.get("cvd"):
            w2 = []
            for x in work:
                w2 += self.decl(s["cvd"], x)
            work = w2
        yes, no = [], []
        for x in work:
            for y, b in self.cond(s["c"], x):
                if b is None or b is True:
                    yes.append(y)
                if b is None or b is False:
                    no.append(y.copy() if b is None else y)
        th = [("thr", t[0], t[1]) for t in self.drain()]
        out += th
        for y in self.dedupe(yes):
            out += self.exec(s["x"], y)
        for y in self.dedupe(no):
            if s.get("y"):
                out += self.exec(s["y"], y)
            else:
                out.append(("n", y, None))
        return out

    def s_for(self, s, st):
        out = []
        work = [st]
        if s.get("init"):
            r = self.exec(s["init"], st)
            work = [y for k, y, p in r if k == "n"]
            out += [z for z in r if z[0] != "n"]
        for x in work:
            out += self.loop(s, s.get("c"), s.get("inc"), s["s"], x, False)
        return out

    def s_while(self, s, st):
        return self.loop(s, s["c"], None, s["s"], st, False)

    def s_do(self, s, st):
        # do { } while (0) is a statement macro
        c = s["c"]
        if c.get("cv") in (0, False) or (c["k"] == "lit" and
                                         c.get("v") in (0, False)):
            out = []
            for kind, y, p in self.exec(s["s"], st):
                if kind in ("brk", "cont"):
                    kind = "n"
                out.append((kind, y, p))
            return out
        return self.loop(s, s["c"], None, s["s"], st, True)

    def counters(self, s):
        """Variables only stepped (never assigned) in the loop s."""
        key = id(s)
        c = self.__dict__.setdefault("_wv", {})
        if key not in c:
            step, asg = set(), set()
            for n in walk(s):
                if n["k"] == "bin" and n["op"].endswith("=") and \
                        n["op"] not in ("==", "!=", "<=", ">="):
                    (asg if n["op"] == "=" else step).add(self.lvkey(n["x"]))
                elif n["k"] == "un" and n["op"] in ("++", "--"):
                    step.add(self.lvkey(n["x"]))
            if s.get("init"):
                for n in walk(s["init"]):
                    if n["k"] == "bin" and n["op"] == "=":
                        asg.discard(self.lvkey(n["x"]))
            c[key] = step - asg
        return c[key]

    def is_counter(self, path, cs):
        if len(path) == 1 and "#" in path[0]:
            return ("v", int(path[0].rsplit("#", 1)[1])) in cs
        return isinstance(path[-1], str) and ("m", path[-1]) in cs

    def lvkey(self, e):
        if e["k"] == "var":
            return ("v", e.get("i"))
        if e["k"] == "mem":
            return ("m", e["n"])
        return None

    def loop(self, node, c, inc, body, st, post):
        out = []
        exits = []
        heads = {}
        seenvals = {}
        work = [(st, post)]
        rounds = 0
        first = True
        while work:
            rounds += 1
            if rounds > 60:
                raise TooBig("loop does not stabilise (line %s)"
                             % node.get("l"))
            nxt = []
            for x, skipcond in work:
                self.C.on_loop(self, x, node)
                ts = []
                if skipcond:
                    ts = [x]
                else:
                    for y, b in (self.cond(c, x) if c else [(x, True)]):
                        if b is None and first and self.C.loop_min1:
                            b = True
                        if b is None or b:
                            ts.append(y)
                        if b is None or b is False:
                            if b is False and first and self.C.loop_min1 \
                                    and rounds == 1 and not post:
                                # assume at least one iteration
                                if self.min1_ok(node):
                                    ts.append(y)
                                    continue
                            exits.append(y.copy())
                    out += [("thr", t[0], t[1]) for t in self.drain()]
                for y in self.dedupe(ts):
                    self.C.on_body(self, y, node)
                    for kind, z, p in self.exec(body, y):
                        if kind in ("n", "cont"):
                            self.C.on_next(self, z, node)
                            if inc:
                                for w, _ in self.eval(inc, z):
                                    nxt.append(w)
                                out += [("thr", t[0], t[1])
                                        for t in self.drain()]
                            else:
                                nxt.append(z)
                        elif kind == "brk":
                            exits.append(z)
                        else:
                            out.append((kind, z, p))
            first = False
            work = []
            for z in self.dedupe(nxt):
                z = z.copy()
                # widening of integer constants and of value numbers
                for p, v in list(z.scal.items()):
                    if isinstance(v, (int, float)) and \
                            not isinstance(v, bool):
                        if self.is_counter(p, self.counters(node)):
                            del z.scal[p]
                            continue
                        sv = seenvals.setdefault(p, set())
                        sv.add(v)
                        if len(sv) > 6:
                            del z.scal[p]
                for p, v in list(z.skey.items()):
                    if st.skey.get(p) != v and rounds > 2:
                        del z.skey[p]
                if rounds > 12:
                    for k in [k for k in z.facts if k not in st.facts]:
                        del z.facts[k]
                sg = self.gkey(z)
                if sg in heads:
                    h = heads[sg] = heads[sg].copy()
                    if not self.merge_into(h, z):
                        continue
                    z = h.copy()
                else:
                    heads[sg] = z.copy()
                if post and c:
                    for y, b in self.cond(c, z):
                        if b is None or b:
                            work.append((y, True))
                        if b is None or b is False:
                            exits.append(y.copy())
                    out += [("thr", t[0], t[1]) for t in self.drain()]
                else:
                    work.append((z, False))
        return out + [("n", x, None) for x in self.dedupe(exits)]

    def min1_ok(self, node):
        return True

    def s_rfor(self, s, st):
        out = []
        exits = []
        v = s["v"]
        d = self.depth
        for st1, r in self.eval(s["r"], st, lv=True):
            base = r.path if r.path is not None else ("T%d.range" % d,)
            el = base + ("[]",)
            lp = ("L%d.%s#%s" % (d, v["n"], v["i"]),)
            n = self.C.extent(self, st1, base)
            if n is not None:
                o, e = self.each(s, st1, base, lp, n)
                out += o
                exits += e
                continue
            self.C.unknown_loop(self, st1, base, s)
            heads = {}
            work = [st1]
            if not self.C.loop_min1:
                exits.append(st1.copy())
            rounds = 0
            while work:
                rounds += 1
                if rounds > 60:
                    raise TooBig("loop does not stabilise")
                nxt = []
                for x in work:
                    self.C.on_loop(self, x, s)
                    x = x.copy()
                    x.advance(el)
                    if is_alias_type(v):
                        x.env[(d, v["i"])] = V(el)
                    else:
                        x.env.pop((d, v["i"]), None)
                        x.forget(lp)
                        self.C.read(self, x, el, s)
                        if v.get("r") in SCALARS:
                            self.C.write(self, x, lp, v, "decl", V(el))
                        else:
                            self.C.copied(self, x, lp, el, s)
                    self.C.on_body(self, x, s)
                    for kind, z, p in self.exec(s["s"], x):
                        if kind in ("n", "cont"):
                            self.C.on_next(self, z, s)
                            nxt.append(z)
                        elif kind == "brk":
                            exits.append(z)
                        else:
                            out.append((kind, z, p))
                work = []
                for z in self.dedupe(nxt):
                    z = z.copy()
                    z.env.pop((d, v["i"]), None)
                    z.advance(el)
                    for p, q in list(z.skey.items()):
                        if st.skey.get(p) != q and rounds > 2:
                            del z.skey[p]
                    if rounds > 12:
                        for k in [k for k in z.facts if k not in st.facts]:
                            del z.facts[k]
                    for p, q in list(z.scal.items()):
                        if isinstance(q, (int, float)) and \
                                not isinstance(q, bool) and \
                                st.scal.get(p, NOC) != q and \
                                (rounds > 5 or
                                 self.is_counter(p, self.counters(s))):
                            del z.scal[p]
                    sg = self.gkey(z)
                    if sg in heads:
                        h = heads[sg] = heads[sg].copy()
                        if not self.merge_into(h, z):
                            continue
                        z = h.copy()
                    else:
                        heads[sg] = z.copy()
                    exits.append(z.copy())
                    work.append(z)
        return out + [("n", x, None) for x in self.dedupe(exits)]

    def each(self, s, st, base, lp, n):
        """A range loop over n elements, one after the other."""
        out, exits = [], []
        v = s["v"]
        d = self.depth
        work = [st]
        for i in range(n):
            el = base + (("[]", ("lit", i)),)
            nxt = []
            for x in work:
                x = x.copy()
                if is_alias_type(v):
                    x.env[(d, v["i"])] = V(el)
                else:
                    x.env.pop((d, v["i"]), None)
                    x.forget(lp)
                    self.C.read(self, x, el, s)
                    if v.get("r") in SCALARS:
                        self.C.write(self, x, lp, v, "decl", V(el))
                    else:
                        self.C.copied(self, x, lp, el, s)
                self.C.on_body(self, x, s)
                for kind, z, p in self.exec(s["s"], x):
                    if kind in ("n", "cont"):
                        self.C.on_next(self, z, s)
                        z = z.copy()
                        z.env.pop((d, v["i"]), None)
                        nxt.append(z)
                    elif kind == "brk":
                        exits.append(z)
                    else:
                        out.append((kind, z, p))
            work = self.dedupe(nxt)
        return out, exits + work

    def s_switch(self, s, st):
        out = []
        # flatten the body into labelled statements
        items = []

        def flat(b):
            if b["k"] == "blk":
                for c in b["s"]:
                    flat(c)
            elif b["k"] in ("case", "default"):
                items.append((b, None))
                flat(b["s"])
            else:
                items.append((None, b))
        flat(s["s"])
        for st1, v in self.eval(s["c"], st):
            self.use(st1, v, s["c"])
            covered = False
            taken = sure = False
            for n, (lab, _) in enumerate(items):
                if lab is None:
                    continue
                x = st1.copy()
                if lab["k"] == "case":
                    for x2, cvv in self.eval(lab["v"], x):
                        x = x2
                        key, pol = self.cmpkey("==", v, cvv)
                        val = self.lookup(x, key, pol, "==", v, cvv)
                        if val is None:
                            r = self.C.choose(self, x, key)
                            val = None if r is None else r == pol
                        if val is False:
                            x = None
                        elif val is None:
                            x.facts[key] = pol
                            if v.path is not None and cvv.const is not NOC \
                                    and v.key is None:
                                x.scal[v.path] = cvv.const
                        else:
                            covered = sure = True
                    if x is None:
                        continue
                else:
                    covered = True
                    if taken and (sure or v.const is not NOC):
                        continue
                taken = taken or (lab["k"] == "case" and covered)
                body = [b for l, b in items[n:] if b is not None]
                for kind, z, p in self.seq(body, [x]):
                    if kind == "brk":
                        kind = "n"
                    out.append((kind, z, p))
            if not covered and not s.get("all"):
                out.append(("n", st1, None))
        return out

    def s_case(self, s, st):
        return self.exec(s["s"], st)

    s_default = s_case
    s_label = s_case

    def s_break(self, s, st):
        return [("brk", st, None)]

    def s_continue(self, s, st):
        return [("cont", st, None)]

    def s_ret(self, s, st):
        x = s.get("x")
        if not x:
            return [("ret", st, None)]
        f = self.stack[-1][0] if self.stack else None
        if f and f.get("rt") == "bool" and x["k"] not in ("lit",):
            return [("ret", y, V(const=b) if b is not None else V())
                    for y, b in self.cond(x, st)]
        out = []
        for y, v in self.eval(x, st):
            out.append(("ret", y, v))
        return out

    def s_try(self, s, st):
        out = []
        for kind, y, p in self.exec(s["s"], st):
            if kind != "thr":
                out.append((kind, y, p))
                continue
            for h in s["h"]:
                if self.catches(h["t"], p):
                    out += self.exec(h["s"], y)
                    break
            else:
                out.append((kind, y, p))
        return out

    STD_EXC = {"std::runtime_error": ["std::exception"],
               "std::logic_error": ["std::exception"],
               "std::invalid_argument": ["std::logic_error",
                                         "std::exception"],
               "std::out_of_range": ["std::logic_error", "std::exception"],
               "std::domain_error": ["std::logic_error", "std::exception"],
               "std::length_error": ["std::logic_error", "std::exception"],
               "std::bad_cast": ["std::exception"]}

    def catches(self, h, t):
        if h == "..." or h == t:
            return True
        anc = list(self.M.ancestors(t or "")) + self.STD_EXC.get(t, [])
        for a in list(anc):
            anc += self.STD_EXC.get(a, [])
        return h in anc

    # --------------------------------------------------------- conditions
    def cmpkey(self, op, a, b):
        ka, kb = a.k(), b.k()
        if op in ("==", "!="):
            ka, kb = sorted((ka, kb), key=repr)
            return ("cmp", "==", ka, kb), op == "=="
        if op == "<":
            return ("cmp", "<", ka, kb), True
        if op == ">":
            return ("cmp", "<", kb, ka), True
        if op == "<=":
            return ("cmp", "<", kb, ka), False
        return ("cmp", "<", ka, kb), False  # >=

    def lookup(self, st, key, pol, op, a, b):
        if a.const is not NOC and b.const is not NOC and \
                a.const is not None and b.const is not None:
            x, y = a.const, b.const
            try:
                num = isinstance(x, (int, float)) and isinstance(
                    y, (int, float))
                if op == "==":
                    return x == y
                if op == "!=":
                    return x != y
                if num:
                    return {"<": x < y, ">": x > y, "<=": x <= y,
                            ">=": x >= y}[op]
            except TypeError:
                pass
        if key in st.facts:
            return st.facts[key] == pol
        if key[1] == "==" and key[2] == key[3] and key[2] != ("?",):
            if anyelem(key[2]):
                return None         # some elements of the same container
            return pol
        return None

    def atom(self, st, key, pol=True):
        """Fork on a boolean key."""
        if any(x == ("?",) for x in key):
            self.C.guess(self, st, key)
            return [(st, True), (st.copy(), False)]
        if key in st.facts:
            return [(st, st.facts[key] == pol)]
        r = self.C.choose(self, st, key)
        if r is not None:
            st.facts[key] = r
            self.C.decided(self, st, key, r)
            return [(st, r == pol)]
        a = st
        b = st.copy()
        a.facts[key] = pol
        b.facts[key] = not pol
        self.C.decided(self, a, key, pol)
        self.C.decided(self, b, key, not pol)
        return [(a, True), (b, False)]

    def cond(self, e, st):
        k = e["k"]
        if k == "cast" and e.get("r") == "bool":
            return self.cond(e["x"], st)
        if k == "bin" and e["op"] == "&&":
            out = []
            for s, b in self.cond(e["x"], st):
                if b is False:
                    out.append((s, False))
                else:
                    out += self.cond(e["y"], s)
                    if b is None:
                        out.append((s.copy(), False))
            return out
        if k == "bin" and e["op"] == "||":
            out = []
            for s, b in self.cond(e["x"], st):
                if b is True:
                    out.append((s, True))
                else:
                    out += self.cond(e["y"], s)
                    if b is None:
                        out.append((s.copy(), True))
            return out
        if k == "un" and e["op"] == "!":
            return [(s, None if b is None else not b)
                    for s, b in self.cond(e["x"], st)]
        if k == "call" and e.get("op") == "!" and not self.M.callees(e):
            a = (e.get("a") or [None])[0] or e.get("o")
            return [(s, None if b is None else not b)
                    for s, b in self.cond(a, st)]
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st):
                if b is None or b:
                    out += self.cond(e["x"], s.copy())
                if b is None or b is False:
                    out += self.cond(e["y"], s.copy())
            return out
        op = e.get("op")
        if op in ("<", ">", "<=", ">=", "==", "!=") and k in ("bin", "call"):
            if k == "call":
                fs = self.M.callees(e)
                if fs:
                    return self.truth(e, st)
                xs = ([e["o"]] if e.get("o") else []) + e.get("a", [])
            else:
                xs = [e["x"], e["y"]]
            out = []
            st = st.copy()
            for s, vs in self.evaln(xs, st):
                a, b = vs
                for v, x in zip(vs, xs):
                    self.use(s, v, x)
                self.compared(s, e, a, b)
                # null tests
                if op in ("==", "!="):
                    z = None
                    if a.const is None and a.const is not NOC:
                        z = b
                    elif b.const is None and b.const is not NOC:
                        z = a
                    if z is not None:
                        if z.const is None:
                            out.append((s, op == "=="))
                            continue
                        out += self.atom(s, ("nonnull", z.k()), op == "!=")
                        continue
                key, pol = self.cmpkey(op, a, b)
                r = self.lookup(s, key, pol, op, a, b)
                if r is not None:
                    out.append((s, r))
                    continue
                r = self.C.choose(self, s, key)
                if r is not None:
                    s.facts[key] = r
                    self.C.decided(self, s, key, r)
                    out.append((s, r == pol))
                    continue
                t, f = s, s.copy()
                if key[2] == key[3]:
                    self.C.guess(self, t, key)
                    self.C.guess(self, f, key)
                    out += [(t, True), (f, False)]
                    continue
                t.facts[key] = pol
                f.facts[key] = not pol
                self.C.decided(self, t, key, pol)
                self.C.decided(self, f, key, not pol)
                # remember the constant an equality establishes
                for x, y in ((a, b), (b, a)):
                    if x.path is not None and x.key is None and \
                            y.const is not NOC and op in ("==", "!="):
                        (t if op == "==" else f).scal[x.path] = y.const
                out += [(t, True), (f, False)]
            return out
        return self.truth(e, st)

    def compared(self, st, e, a, b):
        h = getattr(self.C, "compared", None)
        if h:
            h(self, st, e, a, b)

    def truth(self, e, st):
        out = []
        st = st.copy()
        k = e["k"]
        # smart pointer / pointer tested for null
        f = e.get("f", "")
        if k == "call" and f.endswith("operator bool") and \
                "_Bit_" not in f:
            for s, v in self.eval(e["o"], st, lv=True):
                self.use(s, v, e["o"])
                if v.const is None:
                    out.append((s, False))
                elif v.cls:
                    out.append((s, True))
                else:
                    out += self.atom(s, ("nonnull", v.k()))
            return out
        for s, v in self.eval(e, st):
            self.use(s, v, e)
            if v.const is not NOC:
                if v.const is None:
                    out.append((s, False))
                elif isinstance(v.const, (bool, int, float)):
                    out.append((s, bool(v.const)))
                else:
                    out.append((s, None))
                continue
            if e.get("ptr") or is_ptr_type(e):
                if v.cls:
                    out.append((s, True))
                else:
                    out += self.atom(s, ("nonnull", v.k()))
                continue
            key = v.k()
            if key == ("?",):
                self.C.guess(self, s, key)
                out += [(s, True), (s.copy(), False)]
            else:
                out += self.atom(s, ("truth", key))
        return out

    # -------------------------------------------------------- expressions
    def use(self, st, v, e):
        if v is not None and v.path is not None and not v.tmp:
            self.C.read(self, st, v.path, e)

    def evaln(self, es, st, lvs=None):
        work = [(st, [])]
        for n, e in enumerate(es):
            nxt = []
            for s, vs in work:
                for s2, v in self.eval(e, s, lv=bool(lvs and lvs[n])):
                    nxt.append((s2, vs + [v]))
            work = nxt
        return work

    def eval(self, e, st, lv=False):
        self.steps += 1
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return [(st, V())]
        return m(e, st, lv)

    def e_null(self, e, st, lv):
        return [(st, V())]

    def load(self, st, path, e, cls=None):
        const = st.scal.get(path, NOC)
        if const is NOC:
            c = self.C.known(st, path)
            if c is not None:
                const = c
        key = st.skey.get(path)
        return V(path, const, key, cls=cls or st.dyn.get(norm(path)))

    def e_var(self, e, st, lv):
        d = self.depth
        if e.get("s") in ("g", "sm", "sl"):
            if "cv" in e:
                return [(st, V(const=e["cv"]))]
            return [(st, self.load(st, ("::" + e.get("q", e["n"]),), e))]
        if "cv" in e and e.get("r") in SCALARS and e.get("cq"):
            return [(st, V(const=e["cv"]))]
        for dd in range(d, 0, -1):
            a = st.env.get((dd, e["i"]))
            if a is not None:
                if a.lam is not None:
                    return [(st, a)]
                v = self.load(st, a.path, e, a.cls)
                if v.const is NOC and a.const is not NOC and \
                        a.path[0].startswith("T"):
                    v.const = a.const
                if v.key is None and a.key is not None:
                    v.key = a.key
                return [(st, v)]
        lp = None
        for dd in range(d, 0, -1):
            p = ("L%d.%s#%s" % (dd, e["n"], e["i"]),)
            if dd == d:
                lp = p
            if p in st.scal or p in st.skey:
                lp = p
                break
        return [(st, self.load(st, lp, e))]

    def e_this(self, e, st, lv):
        for dd in range(self.depth, 0, -1):
            t = st.env.get((dd, "this"))
            if t is not None:
                return [(st, t)]
        return [(st, V(("this",)))]

    def e_mem(self, e, st, lv):
        b = e.get("b")
        out = []
        for s, v in (self.eval(b, st, lv=True) if b else
                     self.e_this(e, st, lv)):
            if v.path is None:
                out.append((s, V(key=("mem", e["n"], v.k()))))
                continue
            p = v.path + (e["n"],)
            out.append((s, self.load(s, p, e)))
        return out

    def e_lit(self, e, st, lv):
        v = e["v"]
        if isinstance(v, str):
            try:
                v = float(v)
            except ValueError:
                pass
        return [(st, V(const=v))]

    def e_str(self, e, st, lv):
        return [(st, V(key=("str", e["v"])))]

    def e_enum(self, e, st, lv):
        return [(st, V(const=e["n"]))]

    def e_nullptr(self, e, st, lv):
        return [(st, V(const=None))]

    def e_zero(self, e, st, lv):
        if e.get("r") in SCALARS:
            return [(st, V(const=0))]
        return [(st, V())]

    def e_sub(self, e, st, lv):
        out = []
        for s, (b, x) in self.evaln([e["b"], e["x"]], st, [True, False]):
            self.use(s, x, e["x"])
            if b.path is None:
                out.append((s, V()))
            else:
                out.append((s, self.load(s, b.path + (("[]", x.k()),), e)))
        return out

    def e_cast(self, e, st, lv):
        if "cv" in e:
            return [(st, V(const=e["cv"]))]
        out = []
        for s, v in self.eval(e["x"], st, lv):
            if e.get("w") == "dynamic" and (e.get("ref") or
                                            e.get("t", "").endswith("&")):
                for t in self.C.may_throw(self, s, e, "dynamic_cast"):
                    self.thrown.append((s.copy(), t))
            out.append((s, v))
        return out

    def note_cast(self, st, v, e):
        pass

    def e_defarg(self, e, st, lv):
        return self.eval(e["x"], st, lv) if e.get("x") else [(st, V())]

    def e_paren(self, e, st, lv):
        return self.eval(e["x"], st, lv)

    def e_cond(self, e, st, lv):
        out = []
        for s, b in self.cond(e["c"], st):
            if b is None or b:
                out += self.eval(e["x"], s.copy(), lv)
            if b is None or b is False:
                out += self.eval(e["y"], s.copy(), lv)
        return out

    def e_assert(self, e, st, lv):
        self.asserting = getattr(self, "asserting", 0) + 1
        try:
            return self.asserted(e, st)
        finally:
            self.asserting -= 1

    def asserted(self, e, st):
        out = []
        for s, b in self.cond(e["c"], st):
            if b is False and self.C.assume_asserts:
                continue
            out.append((s, V()))
        return out or []

    def e_throw(self, e, st, lv):
        work = [(st, None)]
        if e.get("x"):
            work = self.eval(e["x"], st)
        for s, _ in work:
            self.C.throws(self, s, e)
            self.thrown.append((s.copy(), e.get("r", "?")))
        return []

    def e_new(self, e, st, lv):
        p = ("N%s:%s" % (e.get("r", ""), e.get("l")),)
        out = []
        x = e.get("x")
        if x and x["k"] == "ctor":
            for s, v in self.construct(x, st, V(p, cls=e.get("r"))):
                s.dyn[p] = e.get("r")
                out.append((s, V(p, cls=e.get("r"))))
            return out
        for s, v in (self.eval(x, st) if x else [(st, V())]):
            out.append((s, V(p, cls=e.get("r"))))
        return out

    def construct(self, e, st, target):
        """Constructor call that builds the object at target."""
        out = []
        for s, avs in self.evaln(e.get("a", []), st,
                                 [True] * len(e.get("a", []))):
            r = self.C.pre_call(self, s, e, target, avs)
            if r is not None:
                out += r
                continue
            f = self.M.definition(e.get("u")) if e.get("u") else None
            if f and self.can_inline(f) and \
                    self.C.inline(self, s, e, f, target, avs):
                for kind, s2, val in self.body(f, target, avs, s, e):
                    if kind == "thr":
                        self.thrown.append((s2, val))
                    else:
                        self.C.post_call(self, s2, e, target, avs, target)
                        out.append((s2, target))
                continue
            for a, x in zip(avs, e.get("a", [])):
                self.use(s, a, x)
            self.C.post_call(self, s, e, target, avs, target)
            out.append((s, target))
        return out

    def e_ctor(self, e, st, lv):
        a = e.get("a", [])
        real = [x for x in a if x.get("k") != "defarg"]
        if is_ptr_type(e) and not real:
            return [(st, V(const=None))]       # null pointer
        if (e.get("copy") or e.get("elid") or is_alias_type(e)) and a:
            # copies, views and smart pointers denote their source; the
            # consumer decides whether an object is created
            out = []
            for s, vs in self.evaln(a, st, [True] * len(a)):
                v = vs[0]
                for w, x in list(zip(vs, a))[1:]:
                    self.use(s, w, x)
                out.append((s, v))
            return out
        out = []
        r = e.get("r") or e["c"]
        if self.M.definition(e.get("u") or "") is not None:
            t = V(("C%d.%s:%s" % (self.depth, r.rsplit("::", 1)[-1],
                                  e.get("l")),), cls=r, tmp=False)
            for s, v in self.construct(e, st, t):
                s.dyn[t.path] = r
                out.append((s, V(t.path, cls=r, tmp=True)))
            return out
        for s, vs in self.evaln(a, st):
            x = self.C.pre_call(self, s, e, V(), vs)
            if x is not None:
                out += x
                continue
            for w, x in zip(vs, a):
                self.use(s, w, x)
                self.fire_lambda(s, w)
            v = V(key=("ctor", e["c"], tuple(w.k() for w in vs)))
            self.C.post_call(self, s, e, V(), vs, v)
            out.append((s, v))
        return out

    def e_init(self, e, st, lv):
        out = []
        a = e.get("a", [])
        for s, vs in self.evaln(a, st):
            for w, x in zip(vs, a):
                self.use(s, w, x)
            if len(vs) == 1 and a[0].get("k") == "init":
                out.append((s, vs[0]))
            else:
                out.append((s, V(key=("init", tuple(w.k() for w in vs)))))
        return out

    def e_lambda(self, e, st, lv):
        return [(st, V(lam=(e, self.depth)))]

    def e_typeid(self, e, st, lv):
        if e.get("x"):
            return [(s, V(key=("typeid", v.k())))
                    for s, v in self.eval(e["x"], st, True)]
        return [(st, V(key=("typeid", e.get("t"))))]

    def e_fn(self, e, st, lv):
        return [(st, V(key=("fn", e["f"])))]

    def e_delete(self, e, st, lv):
        return [(s, V()) for s, _ in self.eval(e["x"], st)]

    def e_other(self, e, st, lv):
        out = []
        for s, vs in self.evaln(e.get("a", []), st):
            for v, x in zip(vs, e.get("a", [])):
                self.use(s, v, x)
            out.append((s, V()))
        return out

    def e_dep(self, e, st, lv):
        return [(st, V())]

    # assignment ----------------------------------------------------------
    def assign(self, st, node, lhs, lv_, val, how):
        """lhs: node, lv_: V of the left side, val: V of the right side."""
        st = st.copy()
        if lv_.path is None:
            return st
        if how == "=" and lhs["k"] == "var" and is_ptr_type(lhs) and \
                not lhs.get("ref") and lhs.get("s") not in ("g", "sm", "sl"):
            # rebinding of a local pointer / iterator
            d = self.depth
            for dd in range(self.depth, 0, -1):
                if (dd, lhs["i"]) in st.env:
                    d = dd
                    break
            lp = ("L%d.%s#%s" % (d, lhs["n"], lhs["i"]),)
            st.forget(lp)
            if val.path is not None:
                st.env[(d, lhs["i"])] = V(squash(val.path), cls=val.cls)
            else:
                st.env.pop((d, lhs["i"]), None)
                if val.const is not NOC:
                    st.scal[lp] = val.const
            self.C.write(self, st, lp, node, "rebind", val)
            return st
        isptr = is_ptr_type(lhs)
        self.write(st, lv_.path, node, "rebind" if (isptr and how == "=")
                   else how, val)
        if how == "=":
            p = lv_.path
            if val.const is not NOC:
                st.scal[p] = val.const
            elif val.key is not None or (val.path is not None and
                                         lhs.get("r") in SCALARS):
                k = val.k()
                if ksize(k) < 60 and not any(overlap(x, p)
                                             for x in deps(k)):
                    st.skey[p] = k
            if val.cls:
                st.dyn[norm(p)] = val.cls
            if val.path is not None and not isptr:
                self.C.copied(self, st, p, val.path, node)
        return st

    def write(self, st, path, node, how, val=None):
        if getattr(self, "wlog", None) is not None:
            self.wlog.append(path)
        st.forget(path)
        self.C.write(self, st, path, node, how, val)

    def arith(self, op, a, b):
        if a.const is not NOC and b.const is not NOC and \
                isinstance(a.const, (int, float)) and \
                isinstance(b.const, (int, float)):
            try:
                x, y = a.const, b.const
                if op == "+":
                    return V(const=x + y)
                if op == "-":
                    return V(const=x - y)
                if op == "*":
                    return V(const=x * y)
            except Exception:
                pass
        ka, kb = a.k(), b.k()
        if ka == ("?",) or kb == ("?",):
            return V()
        if op in ("+", "*") and repr(kb) < repr(ka):
            ka, kb = kb, ka
        return V(key=("bin", op, ka, kb))

    def e_bin(self, e, st, lv):
        op = e["op"]
        if op in ("&&", "||") or op in ("<", ">", "<=", ">=", "==", "!="):
            return [(s, V(const=b) if b is not None else V())
                    for s, b in self.cond(e, st)]
        if op == ",":
            out = []
            for s, _ in self.eval(e["x"], st):
                out += self.eval(e["y"], s, lv)
            return out
        if op == "=":
            out = []
            if e["x"].get("r") == "bool" and e["y"]["k"] != "lit":
                rs = [(s, V(const=b) if b is not None else V())
                      for s, b in self.cond(e["y"], st)]
            else:
                rs = self.eval(e["y"], st)
            for s, v in rs:
                if not is_ptr_type(e["x"]):
                    self.use(s, v, e["y"])
                for s2, l in self.eval(e["x"], s, True):
                    s3 = self.assign(s2, e, e["x"], l, v, "=")
                    out.append((s3, V(l.path, s3.scal.get(l.path, NOC)
                                      if l.path else NOC)))
            return out
        if op.endswith("="):
            out = []
            for s, (v, l) in self.evaln([e["y"], e["x"]], st, [False, True]):
                self.use(s, v, e["y"])
                self.use(s, l, e["x"])
                nv = self.arith(op[:-1], l, v)
                s = s.copy()
                if l.path is not None:
                    self.write(s, l.path, e, op, v)
                    if nv.const is not NOC:
                        s.scal[l.path] = nv.const
                out.append((s, V(l.path, nv.const)))
            return out
        out = []
        for s, (a, b) in self.evaln([e["x"], e["y"]], st):
            self.use(s, a, e["x"])
            self.use(s, b, e["y"])
            if "cv" in e:
                out.append((s, V(const=e["cv"])))
            else:
                out.append((s, self.arith(op, a, b)))
        return out

    def e_un(self, e, st, lv):
        op = e["op"]
        if op == "!":
            return [(s, V(const=b) if b is not None else V())
                    for s, b in self.cond(e, st)]
        if op in ("++", "--"):
            out = []
            for s, v in self.eval(e["x"], st, True):
                s = s.copy()
                if v.path is not None:
                    if is_ptr_type(e["x"]) and e["x"]["k"] == "var":
                        s.advance(v.path)
                        out.append((s, v))
                        continue
                    self.use(s, v, e["x"])
                    self.write(s, v.path, e, op, None)
                    nv = NOC
                    if isinstance(v.const, (int, float)) and \
                            not isinstance(v.const, bool):
                        nv = v.const + (1 if op == "++" else -1)
                        s.scal[v.path] = nv
                    out.append((s, V(None if e.get("post") else v.path,
                                     v.const if e.get("post") else nv)))
                else:
                    out.append((s, V()))
            return out
        out = []
        for s, v in self.eval(e["x"], st, lv):
            if op in ("*", "&", "+"):
                if op == "*":
                    self.deref(s, v, e)
                out.append((s, v))
            elif op == "-":
                self.use(s, v, e["x"])
                if isinstance(v.const, (int, float)):
                    out.append((s, V(const=-v.const)))
                else:
                    out.append((s, V(key=("neg", v.k()))))
            else:
                self.use(s, v, e["x"])
                out.append((s, V(key=("un", op, v.k()))))
        return out

    def deref(self, st, v, e):
        h = getattr(self.C, "deref", None)
        if h:
            h(self, st, v, e)

    # calls -----------------------------------------------------------------
    def e_call(self, e, st, lv):
        self.sites += 1
        o = e.get("o")
        a = e.get("a", [])
        pm = e.get("pm") or ["c"] * len(a)
        op = e.get("op")
        f = e.get("f", "")
        name = f.rsplit("::", 1)[-1]
        if "f" not in e:
            out = []
            ce = e.get("ce")
            for s, vs in self.evaln(([ce] if ce else []) + a, st):
                c = vs[0] if ce else V()
                if c.lam is not None:
                    out += self.call_lambda(s, c.lam, vs[1:], e)
                    continue
                for v, x in zip(vs[1:] if ce else vs, a):
                    self.use(s, v, x)
                out.append((s, V()))
            return out
        # built-in forwarding
        if op in ("->", "*") and not self.M.callees(e) and \
                len(a) + (1 if o else 0) == 1:
            x = o or a[0]
            if op == "->" or is_ptr_type(x) or \
                    "iterator" in (x.get("r") or "").lower() or \
                    "iterator" in f.lower() or "shared_ptr" in f:
                out = []
                for s, v in self.eval(x, st, True):
                    self.deref(s, v, e)
                    out.append((s, v if v.path is not None or v.lam else
                                V(key=v.key)))
                return out
        if op in ("<", ">", "<=", ">=", "==", "!=") and \
                (e.get("r") or "").startswith("Eigen::Cwise"):
            # coefficient-wise: no single truth value
            out = []
            xs = ([o] if o else []) + a
            for s, vs in self.evaln(xs, st):
                for v, x in zip(vs, xs):
                    self.use(s, v, x)
                out.append((s, V(key=("cwise", op) + tuple(
                    v.k() for v in vs))))
            return out
        if op in ("<", ">", "<=", ">=", "==", "!=") and not self.M.callees(e):
            return [(s, V(const=b) if b is not None else V())
                    for s, b in self.cond(e, st)]
        if op == "!" and not self.M.callees(e):
            return [(s, V(const=b) if b is not None else V())
                    for s, b in self.cond(e, st)]
        out = []
        lvs = [True] * len(a)
        xs = ([o] if o else []) + a
        for s, vs in self.evaln(xs, st, [True] * len(xs)):
            ov = vs[0] if o else None
            avs = vs[1:] if o else vs
            out += self.call(e, s, ov, avs, name, op, lv)
        return out

    def call(self, e, st, ov, avs, name, op, lv):
        o = e.get("o")
        a = e.get("a", [])
        if o is not None and ov is not None and ov.lam is not None and \
                op == "()":
            return self.call_lambda(st, ov.lam, avs, e)
        st = st.copy()
        r = self.C.pre_call(self, st, e, ov, avs)
        if r is not None:
            return r
        dyn = None
        if ov is not None:
            dyn = ov.cls or (ov.path and st.dyn.get(norm(ov.path)))
            if o.get("k") == "this" and ov.cls is None and not dyn:
                dyn = None
        cands = self.M.callees(e, dyn)
        if e.get("virt") and not e.get("qual") and not dyn and \
                len(cands) != 1:
            cands = self.C.virtual(self, st, e, cands, ov, avs)
        elif e.get("virt") and not e.get("qual") and not dyn:
            # a single definition: pure interface with one implementation
            cands = self.C.virtual(self, st, e, cands, ov, avs)
        cands = [c for c in cands if self.inlinable(c) and
                 self.can_inline(c) and
                 self.C.inline(self, st, e, c, ov, avs)]
        if cands:
            out = []
            for c in cands:
                self.inlined.add(c["q"])
                th = ov if ov is not None else None
                for kind, s2, val in self.body(c, th, avs, st, e):
                    if kind == "thr":
                        self.thrown.append((s2, val))
                        continue
                    v = val if isinstance(val, V) else V()
                    self.C.post_call(self, s2, e, ov, avs, v)
                    out.append((s2, v))
            return out
        for t in self.C.may_throw(self, st, e, e.get("f")):
            self.thrown.append((st.copy(), t))
        if e.get("noret"):
            return []
        r = self.C.extern(self, st, e, ov, avs)
        if r is None:
            r = self.external(e, st, ov, avs, name, op, lv)
        for s2, v in r:
            self.C.post_call(self, s2, e, ov, avs, v)
        return r

    def inlinable(self, f):
        return not f["q"].startswith("Eigen::")

    def call_lambda(self, st, lam, avs, e):
        node, dl = lam
        out = []
        st = st.copy()
        self.depth += 1
        d = self.depth
        self.stack.append(({"q": "lambda", "ps": node["ps"],
                            "rt": node.get("rt", "")}, e))
        try:
            for p, a in zip(node["ps"], avs):
                self.bind(st, p, a, e)
            rs = self.exec(node["body"], st)
        finally:
            self.depth -= 1
            self.stack.pop()
        for kind, s, v in rs:
            for k in [k for k in s.env if k[0] == d]:
                del s.env[k]
            if kind == "thr":
                self.thrown.append((s, v))
            else:
                out.append((s, v if isinstance(v, V) else V()))
        return out

    def fire_lambda(self, st, v, rng=None):
        """A lambda handed to external code: interpret its body once for its
        effects on the facts; the state is not changed otherwise."""
        if v.lam is None:
            return
        node, _ = v.lam
        avs = [V(("T.lam.%s" % p["n"],)) for p in node["ps"]]
        if rng is not None and len(avs) == 1:
            avs = [V(rng if rng[-1] == "[]" else rng + ("[]",))]
        saved = self.thrown
        self.thrown = []
        log, self.wlog = getattr(self, "wlog", None), []
        rs = self.call_lambda(st, v.lam, avs, node)
        self.thrown = saved
        log2, self.wlog = self.wlog, log
        for p in dict.fromkeys(log2):
            # what the body assigns has any value afterwards
            m = re.match(r"[LTR](\d+)\.", p[0])
            if p[0].startswith("T.lam.") or m and int(m.group(1)) > self.depth:
                continue
            self.write(st, p, node, "lambda")
        h = getattr(self.C, "lambda_done", None)
        if h:
            h(self, st, v, rs)
        return rs

    def swap_aliases(self, st, a, avs):
        """std::swap of two local pointers."""
        ks = []
        for x in a:
            while x.get("k") in ("cast", "paren") and x.get("x"):
                x = x["x"]
            if x["k"] != "var" or not is_ptr_type(x):
                return False
            ks.append(((self.depth, x.get("i")),
                       ("L%d.%s#%s" % (self.depth, x["n"], x["i"]),)))
        vals = []
        for (k, lp), v in zip(ks, avs):
            if k not in st.env and (v.const is NOC or lp not in st.scal):
                return False
            vals.append((st.env.get(k), v))
        for (k, lp), (old, v) in zip(ks, vals[::-1]):
            st.env.pop(k, None)
            st.scal.pop(lp, None)
            if old is not None:
                st.env[k] = old
            else:
                st.scal[lp] = v.const
        return True

    def external(self, e, st, ov, avs, name, op, lv):
        o = e.get("o")
        a = e.get("a", [])
        pm = e.get("pm") or ["c"] * len(a)
        f = e.get("f", "")
        if f in PASS_FUNCS and avs:
            v = avs[0]
            for w, x in list(zip(avs, a))[1:]:
                self.use(st, w, x)
            return [(st, v)]
        if f in ("std::swap", "std::iter_swap") and len(a) == 2 and \
                self.swap_aliases(st, a, avs):
            return [(st, V())]
        if f in ("std::make_shared", "std::make_unique",
                 "std::allocate_shared", "boost::make_shared"):
            for w, x in zip(avs, a):
                self.use(st, w, x)
            cls = e.get("p")
            return [(st, V(("N%s:%s" % (cls, e.get("l")),), cls=cls))]
        rng = None
        if o is None and f.startswith("std::") and len(avs) > 2:
            rng = avs[0].path
        rs = None
        for w in avs:
            rs = self.fire_lambda(st, w, rng) or rs
        if f in ("std::any_of", "std::all_of", "std::none_of") and rs:
            b = {v.const if isinstance(v, V) else NOC for _, v in rs}
            if len(b) == 1 and b & {True, False}:
                x = True in b
                if f == "std::none_of":
                    x = not x
                return [(st, V(const=x))]
        # assignment operators of external classes
        if op and op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            tgt = ov if o is not None else avs[0]
            tn = o if o is not None else a[0]
            val = avs[-1]
            ptr = is_ptr_type(tn)
            if not ptr:
                self.use(st, val, a[-1])
                if op != "=":
                    self.use(st, tgt, tn)
            s2 = self.assign(st, e, tn, tgt, val, op)
            return [(s2, V(tgt.path))]
        if op in ("++", "--") and (o or a):
            tgt = ov if o is not None else avs[0]
            if tgt.path is not None:
                st.advance(tgt.path)
            return [(st, tgt)]
        if op == "[]" or (op == "()" and o is not None):
            for w, x in zip(avs, a):
                self.use(st, w, x)
            if ov.path is not None:
                idx = tuple(self.C.index(self, st, w.k()) for w in avs)
                ix = idx[0] if len(idx) == 1 else ("idx",) + idx
                p = ov.path + (("[]", ix),)
                return [(st, self.load(st, p, e))]
            return [(st, V(key=("call", f, ov.k(),
                                tuple(w.k() for w in avs))))]
        if op == ">>":
            for w, x in zip(avs, a):
                if w.path is not None and o is None and x is not a[0]:
                    self.write(st, w.path, e, ">>")
            return [(st, ov if o is not None else avs[0])]
        if op == "<<" or op == ",":
            tgt = ov if o is not None else avs[0]
            rest = avs if o is not None else avs[1:]
            for w, x in zip(rest, a[-len(rest):] if rest else []):
                self.use(st, w, x)
            rr = ((o if o is not None else a[0]).get("r") or "")
            if "stream" in rr or "Message" in rr:
                return [(st, tgt)]
            if op == "<<" and tgt.path is not None:
                self.write(st, tgt.path, e, "<<",
                           rest[0] if rest else None)
            return [(st, tgt)]
        if op == "&" and o is not None and "archive" in \
                (o.get("t", "") + (o.get("r") or "")):
            return [(st, ov)]
        if o is None:
            for n, (w, x) in enumerate(zip(avs, a)):
                mode = pm[n] if n < len(pm) else "c"
                if mode in ("m", "p") and w.path is not None and \
                        not w.tmp and x["k"] not in ("str",):
                    if mode == "m" and is_ptr_type(x) and False:
                        continue
                    self.write(st, w.path, e, "arg%d:%s" % (n, name))
                else:
                    self.use(st, w, x)
            if (e.get("ref") or is_ptr_type(e)) and \
                    name in ("find_if", "find", "begin", "end", "next",
                             "min_element", "max_element", "lower_bound",
                             "upper_bound", "remove_if", "back_inserter",
                             "advance") and avs and \
                    avs[0].path is not None:
                return [(st, V(avs[0].path))]
            if name in ("max", "min") and all(
                    isinstance(w.const, (int, float)) for w in avs) and avs:
                return [(st, V(const={"max": max, "min": min}[name](
                    w.const for w in avs)))]
            if e.get("st") is None and (e.get("vw") == "m"):
                for w in avs:
                    if w.path is not None:
                        return [(st, V(w.path))]
            return [(st, V(key=("call", f, ("?0",),
                                tuple(w.k() for w in avs)),
                           cls=None))]
        # method of an external class
        const = e.get("cm")
        for n, (w, x) in enumerate(zip(avs, a)):
            mode = pm[n] if n < len(pm) else "c"
            if mode in ("m", "p") and w.path is not None and not w.tmp and \
                    name not in ("lview", "rview"):
                self.write(st, w.path, e, "arg%d:%s" % (n, name))
            elif name not in ("lview", "rview"):
                self.use(st, w, x)
        key = ("call", f, ov.k(), tuple(w.k() for w in avs))
        if name in ("lview", "rview") and avs and avs[0].path is not None:
            return [(st, V(avs[0].path + (("#", name, (ov.k(),)),)))]
        if name in ("lview", "rview") and avs and self.C.temps:
            return [(st, V(key=key))]
        gives = e.get("ref") or e.get("vw") or is_ptr_type(e) or \
            name == "noalias"
        if name in ACCESSORS and (gives or e.get("ref")) and \
                ov.path is not None:
            if name in FULL_VIEWS:
                return [(st, self.load(st, ov.path, e, ov.cls))]
            if name in ELEM:
                if name in ("back", "front", "at", "coeffRef", "coeff"):
                    ix = tuple(self.C.index(self, st, w.k())
                               for w in avs) or (name,)
                    p = ov.path + (("[]", ix[0] if len(ix) == 1 else
                                    ("idx",) + ix),)
                else:
                    p = ov.path + ("[]",)
                return [(st, V(p))]
            p = ov.path + (("#", name, tuple(self.C.index(self, st, w.k())
                                             for w in avs) +
                            ((("ta", e["ta"]),) if e.get("ta") else ())),)
            return [(st, self.load(st, p, e))]
        if const:
            self.use(st, ov, o)
            if gives and ov.path is not None and not e.get("r") in SCALARS:
                # reference / pointer to something inside the object
                if name.startswith("operator"):
                    return [(st, V(ov.path))]
                p = ov.path + (("#", name, tuple(w.k() for w in avs)),)
                return [(st, V(p, key=None))]
            return [(st, V(key=key))]
        if name in ACCESSORS:
            self.use(st, ov, o)
            return [(st, V(key=key))]
        if name.startswith("operator") and op is None:
            self.use(st, ov, o)      # conversion operators
            return [(st, V(ov.path, key=None))]
        if ov.path is not None and not ov.tmp:
            self.write(st, ov.path, e, name, avs[0] if avs else None)
        if gives and ov.path is not None:
            if name in ("setZero", "setConstant", "setIdentity", "setOnes",
                        "fill"):
                return [(st, V(ov.path))]
            p = ov.path + (("#", name, tuple(w.k() for w in avs)),)
            return [(st, V(p))]
        return [(st, V(key=key))]
