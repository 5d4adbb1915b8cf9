"""C21: inconsistent constraint definitions are rejected."""
from ..cases import Cases
from ..interp import NOC, Interp, TooBig, V, norm, show_key, show_path
from ..model import short
from ..solver import BS, ECS, HI
from ..util import IMPL, base

EXPLAIN = """Case analysis of the functions that accept definitions. The
quantities the checks are about (comparison types, sizes, owner of an index,
position of an index with respect to an interval) are abstracted by a finite
set of cases; for each case the function is interpreted abstractly, conditions
on these quantities being decided by the case and all others taken both ways.
No path of an inconsistent case may reach the modification of the object or
the normal end of the constructor, and no path that refuses may have modified
the object before. The search for dependency cycles must look at every index
of the inputs, and go on with all the inputs of the function that computes
it."""

LO, N = 10, 3       # outputs of the constraint added: 10, 11, 12
HELD = 5            # number of constraints in the set before


def run(R, M):
    R.rule("an explicit constraint with an inequality is refused, whichever "
           "component it is for")
    R.rule("outputs computed by any other constraint are refused")
    R.rule("the search for cycles refuses an index of the outputs, continues "
           "with the inputs of the function computing an index, and visits "
           "all indices")
    R.rule("what refuses has not modified the set before")
    R.rule("the outputs of a constraint accepted are recorded as computed")
    R.rule("numbers of comparison types or mask elements that differ from the "
           "dimension of the tangent space are refused by the constructors")
    R.rule("a right hand side function with unsuitable spaces or comparison "
           "types is refused")
    R.assume("assertions are active, as in the default build")
    R.assume("intervals overlap as decided by BlockIndex (C20)")
    fs = [f for f in M.methods(ECS, "add") if f.get("body") is not None]
    for f in fs:
        added(R, M, f)
    initial(R, M)
    for K in (HI, BS):
        for f in M.methods(K, "add"):
            if f.get("body") is not None:
                if K == BS:
                    substitution(R, M, f)
                refused_clean(R, M, K, f)
    constructor(R, M)
    rhs_function(R, M)


def mentions(k, root):
    if isinstance(k, tuple):
        return any(mentions(x, root) for x in k)
    return k == root


class Prov(Cases):
    """Where local block indices and index lists come from."""
    loop_min1 = True

    def __init__(self):
        self.org = {}
        self.notes = []

    def note(self, root, key):
        self.org.setdefault(root, set()).add(key)

    def copied(self, I, st, dst, src, node):
        if len(dst) == 1:
            self.note(dst[0], ("path", src))

    def write(self, I, st, path, node, how, val=None):
        if len(path) == 1 and how in ("decl", "=") and val is not None:
            self.note(path[0], val.k())

    def pre_call(self, I, st, node, ov, avs):
        f = node.get("f") or ""
        if f.endswith("MatrixBlocks::MatrixBlocks") and ov is not None and \
                ov.path is not None and avs:
            self.note(ov.path[0], avs[0].k())
        return None

    def sources(self, k, seen=None):
        """Member paths a key is derived from."""
        seen = set() if seen is None else seen
        out = set()
        if not isinstance(k, tuple):
            return out
        if k and k[0] == "path" and len(k) == 2:
            p = k[1]
            out.add(p)
            if p[0] not in seen:
                seen.add(p[0])
                for o in self.org.get(p[0], ()):
                    out |= self.sources(o, seen)
            for x in p[1:]:
                out |= self.sources(x, seen)
            return out
        for x in k:
            out |= self.sources(x, seen)
        return out


def is_elem(x):
    return x == "[]" or isinstance(x, tuple) and x[0] == "[]"


def place(I, node):
    return (I.stack[-1][0].get("file"), (node or {}).get("l"))


def member(paths, root, name):
    return any(p and p[0] == root and name in p for p in paths)


class Add(Prov):
    def __init__(self, param, comps=("E", "E"), owners=frozenset((-1,)),
                 pos=None, owner=-1):
        Prov.__init__(self)
        self.root = "arg:" + param
        self.comps = comps
        self.owners = owners
        self.pos = pos
        self.owner = owner
        self.now = False
        self.starts = []        # first indices given to the search
        self.steps = False      # indices at a running position
        self.unknown = False
        self.types = set()      # elements whose type was tested
        self.tested = set()
        self.bad = []

    NAMES = {"E": "hpp::constraints::Equality",
             "Z": "hpp::constraints::EqualToZero",
             "S": "hpp::constraints::Superior",
             "I": "hpp::constraints::Inferior"}

    def flag(self, st, **kw):
        st.cl = dict(st.cl)
        st.cl.update(kw)

    def popped(self, k):
        """Does the key denote an index taken from a list of indices?"""
        if k[0] != "path":
            return False
        p = k[1]
        if len(p) == 2 and p[1] in (("[]", "front"), ("[]", "back"),
                                    ("[]", "top")) and \
                isinstance(p[0], str) and "#" in p[0]:
            return True
        return len(p) == 1 and any(
            o[0] == "path" and len(o[1]) == 2 and self.popped(o)
            for o in self.org.get(p[0], ()) if isinstance(o, tuple) and o)

    def leaf(self, st, k):
        if k[0] == "call":
            n = base(k[1])
            p = k[2][1] if len(k) > 2 and isinstance(k[2], tuple) and \
                k[2][:1] == ("path",) else ()
            if n == "size" and p[-1:] == ("comparison_",):
                return 3
            if n == "nv" and "function_" in p:
                return 3
            if n == "size" and p == ("this", "data_"):
                return HELD + 1 if "held" in st.cl else HELD
            if n == "size" and p and p[-1] in ("outputConf_",
                                               "outputVelocity_"):
                return 1
            if n == "empty" and len(p) == 1 and "#" in str(p[0]) and \
                    "popped" not in st.cl and self.pos is not None:
                return False
            return None
        if k[0] != "path":
            return None
        p = k[1]
        if p[0] == self.root:
            if len(p) > 2 and p[1] == "outputConf_" and \
                    p[-1] in ("first", "second"):
                return LO if p[-1] == "first" else N
            if "comparison_" in p and is_elem(p[-1]):
                i = 0 if p[-1][1:] == (("lit", 0),) else 1
                self.types.add(i)
                if i == 1:
                    self.flag(st, typed=True)
                return self.NAMES[self.comps[i]]
        if len(p) == 1 and isinstance(p[0], str) and "#" in p[0] and \
                "comparison_" not in p:
            for o in self.org.get(p[0], ()):
                if o[0] == "path" and "comparison_" in o[1] and \
                        is_elem(o[1][-1]):
                    return self.leaf(st, o)
        if p[:2] == ("this", "argFunction_"):
            if len(p) == 3 and p[2][0] == "[]" and self.popped(p[2][1]):
                return self.owner
            if len(p) == 3 and p[2][0] == "[]":
                s = self.sources(p[2][1])
                if member(s, self.root, "outputConf_"):
                    self.tested.add("owner")
                    d = lin(p[2][1]) or {}
                    if all(a == 1 or a[0] != "path" or len(a[1]) > 1
                           for a in d):
                        return min(self.owners)
                    self.tested.add("owners")
                    self.flag(st, owned=True)
                    return max(self.owners)
                return None
            if len(p) == 3 and p[2][0] == "#" and p[2][1] == "rview":
                s = self.sources(p[2][2])
                if member(s, self.root, "outputConf_"):
                    self.tested |= {"owner", "owners"}
                    self.flag(st, owned=True)
                    return self.owners
                return frozenset((-1,))
            return None
        if self.pos is not None and self.popped(k):
            self.tested.add("index")
            self.now = True
            return self.pos
        return None

    def choose(self, I, st, key):
        if key[0] == "cmp":
            self.bound(I, st, key)
        self.now = False
        r = Cases.choose(self, I, st, key)
        if r is None and key[0] == "cmp" and self.pos is not None:
            for a, b in (key[2:], key[:1:-1]):
                if any(self.popped(x) for x in atoms(a)) and any(
                        "outputVelocity_" in x[1] for x in atoms(b)):
                    self.bad.append(("units", "a configuration index is "
                                     "compared with velocity indices",
                                     place(I, None)))
        if self.now and r is not None:
            self.flag(st, consulted=True)
        elif r is None:
            self.guess(I, st, key)
        if "popped" in st.cl and about(key):
            self.flag(st, pending=False)
        return r

    def guess(self, I, st, key):
        """A condition on the index that the case does not decide, such as
        the one that it has been visited before."""
        if "popped" in st.cl and not (key[0] == "cmp" and any(
                x[0] == "call" and base(x[1]) == "size"
                for x in key[2:] if isinstance(x, tuple) and x)) and not \
                about(key) and len(I.stack) == 1:
            self.flag(st, excused=True)

    def bound(self, I, st, key):
        """Loops over the indices of a segment must reach the last one."""
        d = lin(("bin", "-", key[3], key[2]))
        if d is None or key[1] != "<":
            return
        pos = [a for a, c in d.items() if a != 1 and c == 1 and
               a[0] == "path" and a[1][-1] == "second"]
        loc = [a for a, c in d.items() if a != 1 and c == -1 and
               a[0] == "path" and len(a[1]) == 1]
        n = [a for a, c in d.items() if a != 1 and c == 1 and
             a[0] == "call" and base(a[1]) == "size" and
             mentions(a, "comparison_")]
        if len(n) == 1 and len(loc) == 1 and d.get(1, 0) < 0:
            self.bad.append(("types:last", "the last comparison type is left "
                             "out", place(I, None)))
        if len(pos) == 1 and len(loc) == 1 and len(I.stack) > 0:
            s = self.sources(pos[0])
            if not any("inputConf_" in p for p in s):
                return
            if d.get(1, 0) < 0:
                self.bad.append(("bound", "the last index of each interval of "
                                 "inputs is left out", place(I, None)))

    def write(self, I, st, path, node, how, val=None):
        Prov.write(self, I, st, path, node, how, val)
        if path[0] == "this" and len(path) > 1:
            if how in ("alias", "decl"):
                return
            self.flag(st, mod=True)
            if path[:2] == ("this", "data_") and len(path) == 2 and \
                    how in ("push_back", "emplace_back"):
                self.flag(st, held=True)
            for t, fld in (("argFunction_", "outputConf_"),
                           ("derFunction_", "outputVelocity_")):
                if path[1] == t:
                    self.table(I, st, path, node, how, val, t, fld)
            return
        if not (isinstance(path[0], str) and "#" in path[0]):
            return
        if how in ("pop", "pop_back", "pop_front", "erase", "popped"):
            self.pop(I, st, node)
        elif how in ("push", "push_back", "emplace", "emplace_back",
                     "push_front", "insert") and len(path) == 1:
            self.push(I, st, path, node, val)

    def table(self, I, st, path, node, how, val, t, fld):
        x = path[2] if len(path) > 2 else None
        v = self.rep(st, val.k()) if val is not None else None
        good = None
        if isinstance(x, tuple) and x[0] == "#" and x[1] == "lview":
            good = member(self.sources(x[2]), self.root, fld)
        elif isinstance(x, tuple) and x[0] == "#":
            good = any(mentions(x, y) for y in (fld,)) or None
        self.flag(st, **{t: (good, v)})

    def pop(self, I, st, node):
        if "popped" in st.cl and self.owner >= 0 and \
                not st.cl.get("deps") and not st.cl.get("excused"):
            self.flag(st, lost=True)
        if "popped" in st.cl and not st.cl.get("consulted") and \
                not st.cl.get("excused"):
            self.flag(st, missed=True)
        self.flag(st, popped=True, deps=False, consulted=False,
                  excused=False, pending=True)

    def push(self, I, st, path, node, val):
        if val is None or val.k() == ("?",):
            self.unknown = True
            self.flag(st, deps=True)
            return
        s = self.sources(val.k())
        start = lin(val.k())
        if start is not None:
            fst = [a for a, c in start.items() if a != 1 and
                   a[0] == "path" and a[1][-1] == "first"]
            loc = [a for a in start if a != 1 and a[0] == "path" and
                   len(a[1]) == 1]
            if loc:
                self.steps = True
            elif len(fst) == 1:
                self.starts.append(place(I, node))
            else:
                self.unknown = True
            if len(fst) == 1 and not loc and start.get(1, 0) > 0:
                self.bad.append(("start", "the first index of each interval "
                                 "of inputs is left out", place(I, node)))
        dep = any("data_" in p and "inputConf_" in p for p in s)
        vel = any("inputVelocity_" in p for p in s)
        own = member(s, self.root, "inputConf_")
        if vel and not dep and not own:
            self.bad.append(("velocity", "the search for cycles uses the "
                             "velocity indices of the inputs",
                             place(I, node)))
        if dep:
            right = any("data_" in p and "inputConf_" in p and
                        any(isinstance(x, tuple) and x[0] == "[]" and
                            mentions(x, "argFunction_") for x in p)
                        for p in s) or any(
                            "argFunction_" in p for p in s)
            if right:
                self.flag(st, deps=True)
        elif not own and "popped" in st.cl and not any(
                "outputConf_" in p or "outputVelocity_" in p or
                "inputVelocity_" in p for p in s):
            self.unknown = True
            self.flag(st, deps=True)


def about(key):
    """Does the condition ask whether a list of indices is empty?"""
    def sub(k):
        if isinstance(k, tuple):
            if k and k[0] == "call" and base(k[1]) in ("empty", "size"):
                p = k[2]
                if isinstance(p, tuple) and p[:1] == ("path",) and \
                        len(p[1]) == 1 and "#" in str(p[1][0]):
                    return True
            return any(sub(x) for x in k)
        return False
    return sub(key)


def atoms(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == "path":
            yield k
            return
        for x in k:
            yield from atoms(x)


def lin(k):
    """Linear form {atom: coefficient, 1: constant}."""
    if not isinstance(k, tuple) or not k:
        return None
    if k[0] == "lit":
        return {1: k[1]} if isinstance(k[1], int) else None
    if k[0] == "bin" and k[1] in "+-" and len(k) == 4:
        a, b = lin(k[2]), lin(k[3])
        if a is None or b is None:
            return None
        out = dict(a)
        for x, c in b.items():
            out[x] = out.get(x, 0) + (c if k[1] == "+" else -c)
        return {x: c for x, c in out.items() if c or x == 1}
    if k[0] in ("path", "call"):
        return {k: 1}
    return None


def interpret(R, M, f, c, K):
    I = Interp(M, c)
    try:
        return I.run(f, V(("this",), cls=K))
    except TooBig as e:
        R.unclear("%s: %s" % (short(f["q"]), e))
        return None


def refusal(k, v):
    if k == "thr":
        return True
    c = v.const if isinstance(v, V) else NOC
    return k == "ret" and isinstance(c, int) and not isinstance(c, bool) \
        and c < 0


def added(R, M, f):
    name = short(f["q"])
    param = f["ps"][0]["n"]
    R.analysed(f)

    def case(what, **kw):
        c = Add(param, **kw)
        outs = interpret(R, M, f, c, ECS)
        R.count("cases")
        return c, outs or []

    # refusing leaves the set unchanged; accepting records the outputs
    c, outs = case("consistent")
    for k, st, v in outs:
        if refusal(k, v):
            R.count("refusals")
            R.check("mod" not in st.cl, "%s:partial" % name, "%s modifies the "
                    "set on a path that refuses the constraint" % name,
                    f["file"], f["line"])
        elif "held" in st.cl:
            R.count("acceptances")
            for t, fld in (("argFunction_", "outputConf_"),
                           ("derFunction_", "outputVelocity_")):
                w = st.cl.get(t)
                R.check(w is not None, "%s:%s" % (name, t), "%s accepts a "
                        "constraint without recording in %s what it computes"
                        % (name, t), f["file"], f["line"])
                if w:
                    R.check(w[0] is not False, "%s:%s:rows" % (name, t),
                            "%s does not record in %s the outputs of the "
                            "constraint" % (name, t), f["file"], f["line"])
                    R.check(w[1] is None or w[1] == HELD, "%s:%s:index" % (
                        name, t), "%s records in %s a number that is not that "
                        "of the constraint" % (name, t), f["file"],
                        f["line"])
    # comparison types
    for a, b in (("S", "S"), ("I", "I"), ("E", "S"), ("Z", "I"), ("E", "I"),
                 ("Z", "S")):
        c, outs = case("types", comps=(a, b))
        R.check(c.types or not outs, "%s:types" % name, "%s accepts a "
                "constraint without looking at its comparison types" % name,
                f["file"], f["line"])
        R.check(1 in c.types or not c.types or a in "SI",
                "%s:types:all" % name, "%s looks only at some of the "
                "comparison types" % name, f["file"], f["line"])
        for k, st, v in outs:
            if "held" in st.cl and c.types and (a in "SI" or
                                                "typed" in st.cl):
                R.bad("%s:types:%s" % (name, b), "%s accepts a constraint "
                      "with comparison type %s" % (name, base(c.NAMES[b])),
                      f["file"], f["line"])
                break
        else:
            R.ok("%s: types %s, %s" % (name, a, b))
    # outputs computed by another constraint
    for own in ((-1, 0), (-1, 1), (0,), (1, 2)):
        c, outs = case("owners", owners=frozenset(own))
        acc = [1 for k, st, v in outs if "held" in st.cl and
               ("owned" in st.cl or "owners" not in c.tested)]
        R.check(not acc, "%s:owner" % name, "%s accepts a constraint "
                "whose outputs are computed by constraint %d" % (
                    name, max(own)), f["file"], f["line"],
                text="%s: outputs computed by %s" % (name, own))
    # cycles
    seen = False
    for pos in (LO, LO + 1, LO + N - 1):
        c, outs = case("cycle", pos=pos)
        seen = seen or "index" in c.tested
        acc = [1 for k, st, v in outs if "held" in st.cl and
               "popped" in st.cl and (
                   st.cl.get("consulted") or "missed" in st.cl or
                   not st.cl.get("excused"))]
        if any("popped" in st.cl for k, st, v in outs):
            seen = True
            R.check(not acc, "%s:cycle" % name, "%s accepts a constraint "
                    "one of whose inputs depends on its own output (index %d "
                    "of %d)" % (name, pos - LO, N), f["file"], f["line"],
                    text="%s: dependency on output %d" % (name, pos - LO))
    bad = {}
    for own in (-1, 0, 1):
        c, outs = case("search", pos=LO - 1, owner=own)
        for key, msg, pl in c.bad:
            bad.setdefault(key, (msg, pl))
        if c.starts and not c.steps and not c.unknown:
            bad.setdefault("one", ("only the first index of each interval of "
                                   "inputs is looked at", c.starts[0]))
        for k, st, v in outs:
            if "held" in st.cl and "popped" in st.cl:
                R.check(not st.cl.get("pending"), "%s:remaining" % name,
                        "%s accepts a constraint while some indices that its "
                        "inputs depend on have not been looked at" % name,
                        f["file"], f["line"])
            if own >= 0 and "held" in st.cl and "popped" in st.cl:
                R.check((st.cl.get("deps") or st.cl.get("excused")) and
                        "lost" not in st.cl,
                        "%s:search" % name, "%s accepts a constraint without "
                        "looking at the inputs of constraint %d, which "
                        "computes one of its inputs" % (name, own),
                        f["file"], f["line"])
    for key, (msg, pl) in bad.items():
        R.bad("%s:%s" % (name, key), "%s: %s" % (name, msg), *pl)
    if not seen:
        # no list of indices: is there any search at all?
        R.check(searches(M, f), "%s:nosearch" % name, "%s does not search "
                "for dependency cycles" % name, f["file"], f["line"])
        R.unclear("%s: search for cycles not understood" % name)


def searches(M, f, depth=0, seen=None):
    """Is some owner of an index used to look at another constraint?"""
    from ..model import walk
    seen = seen or set()
    if id(f) in seen:
        return False
    seen.add(id(f))
    for n in walk(f.get("body") or {}):
        if n.get("k") == "while" or n.get("k") == "do":
            return True
        if n.get("k") == "call" and depth < 3:
            for g in M.callees(n):
                if g.get("cls") == ECS and base(g["q"]) not in (
                        "computeOrder",) and g is not f and \
                        g.get("body") is not None and searches(
                            M, g, depth + 1, seen):
                    return True
    return False


class Initial(Prov):
    def __init__(self):
        Prov.__init__(self)
        self.got = {}

    def write(self, I, st, path, node, how, val=None):
        Prov.write(self, I, st, path, node, how, val)
        if len(path) == 2 and path[0] == "this" and path[1] in (
                "argFunction_", "derFunction_") and val is not None:
            self.got.setdefault(path[1], []).append((val.k(), place(I, node)))


def initial(R, M):
    """No index is computed by a constraint to begin with."""
    for f in M.methods(ECS):
        if not f.get("ctor") and base(f["q"]) != "init":
            continue
        if f.get("ctor") and any("ExplicitConstraintSet" in p["t"]
                                 for p in f["ps"]):
            continue
        c = Initial()
        if interpret(R, M, f, c, ECS) is None:
            continue
        for t, vs in c.got.items():
            for k, pl in vs:
                while isinstance(k, tuple) and k[0] == "ctor" and \
                        len(k[2]) == 1:
                    k = k[2][0]
                if isinstance(k, tuple) and k[0] == "call" and \
                        base(k[1]) in ("Constant", "Zero", "Ones"):
                    a = k[3][-1] if base(k[1]) == "Constant" else ("lit", 0)
                    R.count("initial tables")
                    R.check(a[0] != "lit" or a[1] < 0, "%s:%s:initial" % (
                        short(f["q"]), t), "%s starts with indices computed "
                        "by a constraint in %s" % (short(f["q"]), t), *pl)


# ------------------------------------------------------------- solvers
class Refuse(Prov):
    def __init__(self, K, result=None):
        Prov.__init__(self)
        self.K = K
        self.result = result

    def inline(self, I, st, node, f, ov, avs):
        return base(f["q"]) not in ("update", "computeActiveRowsOfJ",
                                    "explicitConstraintSetHasChanged")

    def pre_call(self, I, st, node, ov, avs):
        Prov.pre_call(self, I, st, node, ov, avs)
        n, cls = base(node.get("f") or ""), ""
        for g in I.M.callees(node):
            cls = g.get("cls")
        if n == "add" and cls == ECS:
            st = st.copy()
            st.cl = dict(st.cl)
            st.cl["expl"] = True
            return [(st, V(const=self.result))]
        if n == "add" and cls == HI and self.K == BS and \
                len(I.stack) >= 1 and ov is not None and \
                ov.path == ("this",):
            st = st.copy()
            st.cl = dict(st.cl)
            st.cl["impl"] = True
            st.cl["mod"] = True
            return [(st, V(const=True))]
        return None

    def write(self, I, st, path, node, how, val=None):
        Prov.write(self, I, st, path, node, how, val)
        if path[0] == "this" and len(path) > 1 and how not in (
                "alias", "decl"):
            st.cl = dict(st.cl)
            st.cl["mod"] = True
            if path[1] == "constraints_" and how in (
                    "push_back", "emplace_back"):
                st.cl["listed"] = True


class Refuses(Refuse):
    def throws(self, I, st, node):
        if all(s[0].get("cls") in (HI, BS, ECS) for s in I.stack):
            st.cl = dict(st.cl)
            st.cl["refuses"] = True


def substitution(R, M, f):
    """What the explicit set refused is treated as implicit."""
    name = short(f["q"])
    R.analysed(f)
    for res in (-1, 0, 4):
        c = Refuse(BS, res)
        outs = interpret(R, M, f, c, BS)
        for k, st, v in outs or ():
            if k != "ret" or "expl" not in st.cl:
                continue
            R.count("explicit constraints offered")
            if res < 0:
                R.check("impl" in st.cl, "%s:refused" % name, "%s loses a "
                        "constraint that the explicit constraint set refused"
                        % name, f["file"], f["line"])
            else:
                R.check("impl" not in st.cl, "%s:both" % name, "%s adds as "
                        "implicit a constraint that the explicit constraint "
                        "set accepted as number %d" % (name, res),
                        f["file"], f["line"])
                R.check("impl" in st.cl or "listed" in st.cl,
                        "%s:listed" % name, "%s does not list the constraint "
                        "that the explicit constraint set accepted" % name,
                        f["file"], f["line"])


def refused_clean(R, M, K, f):
    name = short(f["q"])
    c = Refuses(K, 0)
    outs = interpret(R, M, f, c, K)
    R.analysed(f)
    for k, st, v in outs or ():
        no = k == "thr" and "refuses" in st.cl or k == "ret" and isinstance(v, V) and \
            v.const is False
        if no:
            R.count("refusals")
            R.check("mod" not in st.cl, "%s:partial" % name, "%s modifies the "
                    "solver on a path that refuses the constraint" % name,
                    f["file"], f["line"])


# ---------------------------------------------------------- constructors
class Sizes(Cases):
    """Sizes of the comparison types and of the mask, dimensions."""

    def __init__(self, comp, mask, nq, nv):
        self.n = {"comp": comp, "mask": mask}
        self.nq, self.nv = nq, nv
        self.tested = set()

    def leaf(self, st, k):
        if k[0] != "call":
            return None
        n = base(k[1])
        p = k[2][1] if len(k) > 2 and isinstance(k[2], tuple) and \
            k[2][:1] == ("path",) else ()
        if n in ("size", "empty"):
            for w, names in (("comp", ("comparison_", "arg:comp")),
                             ("mask", ("mask_", "arg:mask"))):
                if p and p[-1] in names:
                    self.tested.add(w)
                    return self.n[w] if n == "size" else self.n[w] == 0
        if n == "nv":
            return self.nv
        if n == "nq":
            return self.nq
        return None


def constructor(R, M):
    """The constructor of a constraint ends normally only for the sizes of
    the tangent space."""
    for f in M.methods(IMPL):
        if not f.get("ctor") or f.get("body") is None or \
                len(f["ps"]) < 2:
            continue
        pn = [p["n"] for p in f["ps"]]
        name = short(f["q"])
        roles = {}
        for p in f["ps"]:
            if "ComparisonType" in p["t"] or "comp" in (p["n"] or ""):
                roles["comp"] = p["n"]
            elif "bool" in p["t"]:
                roles["mask"] = p["n"]
        if len(roles) < 2:
            continue
        R.analysed(f)
        for comp, mask in ((6, 6), (5, 6), (7, 6), (6, 5), (6, 7), (7, 7),
                           (5, 5), (0, 6), (6, 0), (0, 0)):
            c = Sizes(comp, mask, 7, 6)
            c2 = named(c, roles)
            outs = interpret(R, M, f, c2, IMPL)
            if outs is None:
                return
            ends = [1 for k, st, v in outs if k in ("ret", "end", "normal",
                                                    "next")]
            R.count("cases")
            if (comp, mask) == (6, 6):
                continue
            R.check(not ends, "%s:%s" % (name, "comp" if comp != 6 else
                                         "mask"), "%s accepts %d comparison "
                    "types and %d mask elements for a function with a "
                    "tangent space of dimension 6 (size of values 7)" % (
                        name, comp, mask), f["file"], f["line"],
                    text="%s: %d comparison types, %d mask elements" % (
                        name, comp, mask))


def named(c, roles):
    class Named(Sizes):
        def leaf(self, st, k):
            if k[0] == "call" and base(k[1]) in ("size", "empty"):
                p = k[2][1] if len(k) > 2 and isinstance(k[2], tuple) and \
                    k[2][:1] == ("path",) else ()
                for w, n in roles.items():
                    if p == ("arg:" + n,) or len(p) == 1 and \
                            p[0].startswith("L1.%s#" % n):
                        self.tested.add(w)
                        v = self.n[w]
                        return v if base(k[1]) == "size" else v == 0
            return Sizes.leaf(self, st, k)
    return Named(c.n["comp"], c.n["mask"], c.nq, c.nv)


class RhsF(Cases):
    loop_min1 = True

    def __init__(self, param, nin, ndin, same, comp):
        self.root = "arg:" + param
        self.v = (nin, ndin, same, comp)

    def leaf(self, st, k):
        nin, ndin, same, comp = self.v
        if k[0] == "path":
            p = k[1]
            if p[0] == self.root and p[-1] == "inputSize_":
                return nin
            if p[0] == self.root and p[-1] == "inputDerivativeSize_":
                return ndin
            if p[:1] == (self.root,) and len(p) == 1:
                return True
            if "comparison_" in p and is_elem(p[-1]):
                return "hpp::constraints::" + comp
        if k[0] == "call" and base(k[1]) in ("operator==", "operator!=") \
                and mentions(k, "outputSpace_"):
            return same == (base(k[1]) == "operator==")
        if k[0] == "call" and base(k[1]) == "size" and \
                mentions(k, "comparison_"):
            return 3
        return None

    def choose(self, I, st, key):
        if key[0] == "cmp" and key[1] == "==" and all(
                x[0] == "path" and x[1][-1] == "outputSpace_"
                for x in key[2:]):
            return self.v[2]
        if key[0] == "cmp" and key[1] == "==" and all(
                x[0] == "call" and mentions(x, "outputSpace_") and
                x[1] == key[2][1] for x in key[2:]):
            return True         # another space of the same dimensions
        return Cases.choose(self, I, st, key)

    def write(self, I, st, path, node, how, val=None):
        if path == ("this", "rhsFunction_"):
            st.cl = dict(st.cl)
            st.cl["set"] = True


def rhs_function(R, M):
    for f in M.methods(IMPL, "rightHandSideFunction"):
        if f.get("body") is None or not f["ps"]:
            continue
        name = short(f["q"])
        R.analysed(f)
        for v in ((1, 1, True, "Equality"), (2, 1, True, "Equality"),
                  (1, 2, True, "Equality"), (0, 0, True, "Equality"),
                  (1, 1, False, "Equality"), (1, 1, True, "EqualToZero"),
                  (1, 1, True, "Superior"), (1, 1, True, "Inferior")):
            c = RhsF(f["ps"][0]["n"], *v)
            outs = interpret(R, M, f, c, IMPL)
            R.count("cases")
            if outs is None or v == (1, 1, True, "Equality"):
                continue
            acc = [1 for k, st, x in outs if "set" in st.cl]
            R.check(not acc, "%s:%s" % (name, v), "%s accepts a function of "
                    "%d, %d parameters with %s output space, on a constraint "
                    "with type %s" % (name, v[0], v[1], "the same" if v[2]
                                      else "another", v[3]),
                    f["file"], f["line"], text="%s: %s" % (name, v))
