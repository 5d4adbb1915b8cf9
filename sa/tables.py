"""Contents of containers, vectors and sets of rows, element by element.

A list is a tuple of items; an item is a number, a string (enum), a boolean,
a segment ("seg", start, length), a symbol (a tuple beginning with another
string) or None when it is not known."""
from .cases import Numbers
from .interp import V, deps

SEL = {"segment", "head", "tail", "row", "middleRows", "topRows",
       "bottomRows", "lview", "rview"}
SAME = {"eval", "matrix", "array", "derived", "noalias", "vector", "value",
        "transpose", "base", "exp", "log", "keepRows", "getView", "get",
        "const_cast_derived", "cast", "elementRef", "elementConstRef",
        "transposed", "coeffs"}
SETS = ("BlockIndices", "MatrixBlocks", "RowBlockIndices", "ColBlockIndices",
        "BlockIndex")
SEGT = ("segment_t", "std::pair", "pair")


def is_seg(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == "seg"


def members(items):
    """Indices of a set of segments (None: not known)."""
    out = []
    for x in items or ():
        if is_seg(x) and isinstance(x[1], (int, float)) and \
                isinstance(x[2], (int, float)):
            out += list(range(int(x[1]), int(x[1]) + int(x[2])))
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            out.append(int(x))
        else:
            return None
    return out


class Tables(Numbers):
    loop_min1 = False
    temps = True

    # names of members the case speaks of: conditions on these, or on local
    # quantities, that could not be followed make a path uncertain
    TRACK = ()

    def decided(self, I, st, key, value):
        if self.choose(I, st, key) is None:
            self.guess(I, st, key)

    def guess(self, I, st, key):
        if getattr(I, "asserting", 0):
            return
        if any(p[0][0] in "LTRCN" or any(x in p for x in self.TRACK)
               for p in deps(key)):
            st.cl = dict(st.cl)
            st.cl["?"] = True

    def unknown_loop(self, I, st, base, s):
        """A loop over a list whose content is not known."""
        self.guess(I, st, ("path", base))

    # initial content of a list, by path
    def initial(self, st, p):
        return None

    def get(self, st, p):
        """Content of the list at p."""
        if p[-1:] == ("m_cols",) and self.both(st, p[:-1]):
            return None
        p = canon(p)
        for n in range(len(p), -1, -1):
            src = st.cl.get(("c", p[:n]))
            if src is not None:
                # cut when the copy, or part of it, was written
                v = st.cl.get(("l", p))
                return v if ("l", p) in st.cl else \
                    self.get(st, src + p[n:])
        if ("l", p) in st.cl:
            return st.cl[("l", p)]
        # element of a list of lists
        if p and isinstance(p[-1], tuple) and p[-1][0] == "[]" and \
                len(p[-1]) > 1:
            up = self.get(st, p[:-1])
            i = self.pos(st, p[-1], len(up) if up is not None else None)
            if up is not None and i is not None and 0 <= i < len(up) and \
                    isinstance(up[i], tuple) and up[i][:1] == ("list",):
                return up[i][1]
        return self.initial(st, p)

    TWO = ("activeRowsOfJ",)

    def both(self, st, p):
        """Selections of rows and of columns."""
        return ("2", self.real(st, p)) in st.cl or p[-1:] and \
            p[-1] in self.TWO

    def put(self, st, p, items):
        p = canon(p)
        cl = dict(st.cl)
        cl[("l", p)] = None if items is None else tuple(items)
        st.cl = cl

    def drop(self, st, p):
        """Whatever is below p changed."""
        hit = [k for k in st.cl if isinstance(k, tuple) and len(k) == 2 and
               k[0] in ("l", "n", "c", "2") and k[1][:len(p)] == p and
               (k[0] != "c" or len(k[1]) >= len(p))]
        if hit:
            st.cl = {k: v for k, v in st.cl.items() if k not in hit}

    def pos(self, st, step, n=None):
        """Position an element step denotes."""
        x = step[1]
        if x == "front":
            return 0
        if x == "back":
            return None if n is None else n - 1
        if isinstance(x, tuple) and x[0] == "lit" and \
                isinstance(x[1], (int, float)):
            return int(x[1])
        r = self.rep(st, x) if isinstance(x, tuple) else None
        if isinstance(r, (int, float)) and not isinstance(r, bool):
            return int(r)
        return None

    def index(self, I, st, key):
        r = self.rep(st, key)
        if isinstance(r, (int, float)) and not isinstance(r, bool):
            return ("lit", int(r))
        return key

    def extent(self, I, st, path):
        v = self.items(st, ("path", path))
        return None if v is None else len(v)

    def flat(self, p):
        """Elements of a Lie group built on a vector are the vector."""
        for n in range(len(p) - 1, -1, -1):
            x = p[n]
            if isinstance(x, tuple) and x[0] == "#" and \
                    x[1] in ("elementRef", "elementConstRef") and x[2] and \
                    x[2][0][0] == "path":
                return self.flat(x[2][0][1]) + p[n + 1:]
        return p

    # selections
    def sel(self, st, p):
        """Base list, positions (None: not known) a path denotes."""
        p = self.flat(p)
        n = len(p)
        while n and isinstance(p[n - 1], tuple) and p[n - 1][0] == "#" and \
                (p[n - 1][1] in SEL or p[n - 1][1] in SAME):
            n -= 1
        base = p[:n]
        v = self.get(st, base)
        if v is None:
            return base, None
        idx = list(range(len(v)))
        for x in p[n:]:
            if x[1] in SAME:
                continue
            a = [y for y in x[2] if y[0] != "ta"]
            if x[1] in ("lview", "rview"):
                m = self.rows(st, a[0])
                if m is None or any(i >= len(idx) for i in m):
                    return base, None
                idx = [idx[i] for i in m]
                continue
            a = [self.rep(st, y) for y in a]
            if any(not isinstance(y, (int, float)) for y in a):
                return base, None
            a = [int(y) for y in a]
            s, k = {"segment": lambda: (a[0], a[1]),
                    "middleRows": lambda: (a[0], a[1]),
                    "head": lambda: (0, a[0]), "topRows": lambda: (0, a[0]),
                    "tail": lambda: (len(idx) - a[0], a[0]),
                    "bottomRows": lambda: (len(idx) - a[0], a[0]),
                    "row": lambda: (a[0], 1)}[x[1]]() \
                if len(a) in (1, 2) else (-1, 0)
            if s < 0 or s + k > len(idx):
                return base, None
            idx = idx[s:s + k]
        return base, idx

    def rows(self, st, k):
        """Rows of a set of indices given by a key."""
        v = self.items(st, k)
        return None if v is None else members(v)

    def special(self, st, k):
        """Items of other expressions."""
        return None

    def logof(self, st, items):
        return items

    def items(self, st, k):
        if not isinstance(k, tuple) or not k:
            return None
        r = self.special(st, k)
        if r is not None:
            return r
        if k[0] == "path":
            p = k[1]
            b, idx = self.sel(st, p)
            if idx is None:
                return None
            v = self.get(st, b)
            return tuple(v[i] for i in idx)
        if k[0] == "ctor":
            c = k[1].split("<")[0].rsplit("::", 1)[-1]
            if not k[2]:
                return ()
            if c in SETS:
                a = [self.rep(st, x) for x in k[2][:2]]
                if len(a) == 2 and all(isinstance(x, (int, float))
                                       for x in a):
                    return (("seg", int(a[0]), int(a[1])),)
                return self.items(st, k[2][0])
            if c == "vector" and len(k[2]) >= 2:
                n, x = self.rep(st, k[2][0]), self.item(st, k[2][1])
                if isinstance(n, (int, float)):
                    return (x,) * int(n)
            return self.items(st, k[2][0])
        if k[0] == "init":
            return tuple(self.item(st, x) for x in k[1])
        if k[0] == "neg":
            v = self.items(st, k[1])
            return None if v is None else tuple(self.minus(x) for x in v)
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            ks = ([k[2]] if len(k) > 2 and k[2] != ("?0",) else []) + \
                list(k[3] if len(k) > 3 else ())
            if n in ("lview", "rview") and len(ks) == 2:
                m, v = self.rows(st, ks[0]), self.items(st, ks[1])
                if m is None or v is None or any(i >= len(v) for i in m):
                    return None
                return tuple(v[i] for i in m)
            if n in ("Zero", "Constant", "Ones") and ks:
                m = self.rep(st, ks[0])
                x = {"Zero": 0, "Ones": 1}.get(n)
                if n == "Constant":
                    x = self.item(st, ks[-1])
                if isinstance(m, (int, float)):
                    return (x,) * int(m)
                return None
            if n == "operator-" and len(ks) == 1:
                v = self.items(st, ks[0])
                return None if v is None else tuple(self.minus(x) for x in v)
            if n == "log" and ks:
                v = self.items(st, ks[-1])
                return None if v is None else self.logof(st, v)
            if n in SEL and len(ks) > 1:
                v = self.items(st, ks[0])
                a = [self.rep(st, x) for x in ks[1:]]
                if v is None or any(not isinstance(x, (int, float))
                                    for x in a):
                    return None
                a = [int(x) for x in a]
                s, m = (a[0], a[1]) if len(a) == 2 else \
                    (len(v) - a[0], a[0]) if n in ("tail", "bottomRows") \
                    else (a[0], 1) if n == "row" else (0, a[0])
                return v[s:s + m] if s >= 0 else None
            if n in SAME and ks:
                return self.items(st, ks[0] if n not in (
                    "exp", "elementRef", "elementConstRef") else ks[-1])
        return None

    def minus(self, x):
        if isinstance(x, (int, float)):
            return -x
        if isinstance(x, tuple) and x[0] == "neg":
            return x[1]
        return None if x is None else ("neg", x)

    def item(self, st, k):
        """Item a scalar or segment expression denotes."""
        if not isinstance(k, tuple):
            return None
        if k[0] in ("ctor", "init"):
            a = k[2] if k[0] == "ctor" else k[1]
            c = k[1] if k[0] == "ctor" else "segment_t"
            if len(a) == 2 and any(s in c for s in SEGT):
                return ("seg", self.rep(st, a[0]), self.rep(st, a[1]))
            if len(a) == 1:
                return self.item(st, a[0])
        if k[0] == "call" and k[1].rsplit("::", 1)[-1] == "make_pair" and \
                len(k[3]) == 2:
            return ("seg", self.rep(st, k[3][0]), self.rep(st, k[3][1]))
        if k[0] == "path":
            p = k[1]
            v = self.member(st, p)
            if v is not None:
                return v
        return self.rep(st, k)

    def member(self, st, p):
        """Item at an element path (or scalar copied from one)."""
        if ("i", p) in st.cl:
            return st.cl[("i", p)]
        for n in range(len(p), 0, -1):
            src = st.cl.get(("c", p[:n]))
            if src is not None and ("l", p) not in st.cl and \
                    ("n", p) not in st.cl:
                return self.member(st, src + p[n:])
        if p and isinstance(p[-1], tuple) and p[-1][0] == "[]" and \
                len(p[-1]) > 1:
            v = self.items(st, ("path", p[:-1]))
            i = self.pos(st, p[-1], len(v) if v is not None else None)
            if v is not None and i is not None and 0 <= i < len(v):
                return v[i]
        return None

    def quantity(self, st, k):
        return None

    def leaf(self, st, k):
        r = self.quantity(st, k)
        if r is not None:
            return r
        if k[0] == "path":
            p = k[1]
            if p[-1:] in (("first",), ("second",)):
                x = self.member(st, p[:-1])
                if is_seg(x):
                    return x[1] if p[-1] == "first" else x[2]
                return None
            x = self.member(st, p)
            if isinstance(x, (int, float, str, bool)):
                return x
            return None
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            o = k[2] if len(k) > 2 else None
            if n in ("size", "rows", "nbRows", "nbIndices", "nbCols") and o:
                v = self.items(st, o)
                if v is None:
                    return None
                if any(is_seg(x) for x in v) and n in ("nbRows", "nbIndices",
                                                       "nbCols"):
                    m = members(v)
                    return None if m is None else len(set(m))
                return len(v)
            if n == "operator bool" and o:
                return self.item(st, o)
            if n == "empty" and o:
                v = self.items(st, o)
                return None if v is None else not v
            if n in ("coeff", "at", "operator[]", "operator()") and \
                    k[3] and o:
                v = self.items(st, o)
                i = self.rep(st, k[3][0])
                if v is not None and isinstance(i, (int, float)) and \
                        0 <= i < len(v) and \
                        isinstance(v[int(i)], (int, float, str)):
                    return v[int(i)]
            if n in ("squaredNorm", "norm", "sum") and o:
                v = self.items(st, o)
                if v is None or any(not isinstance(x, (int, float))
                                    for x in v):
                    return None
                q = sum(x * x for x in v)
                return round({"squaredNorm": q, "norm": q ** .5,
                              "sum": sum(v)}[n], 9)
            if n in ("isZero",) and o:
                v = self.items(st, o)
                if v is None or any(not isinstance(x, (int, float))
                                    for x in v):
                    return None
                return all(x == 0 for x in v)
        return None

    def copied(self, I, st, dst, src, node):
        src = self.real(st, src)
        if dst == src:
            return
        self.drop(st, dst)
        seen = [k for k in st.cl if isinstance(k, tuple) and len(k) == 2 and
                k[0] in ("l", "i", "n", "2") and k[1][:len(src)] == src]
        cl = dict(st.cl)
        for k in seen:
            cl[(k[0], dst + k[1][len(src):])] = st.cl[k]
        v = self.items(st, ("path", src))
        if v is not None:
            cl[("l", dst)] = v
        x = self.member(st, src)
        if x is not None:
            cl[("i", dst)] = x
        if dst and isinstance(dst[0], str) and dst[0][0] in "LT":
            cl[("c", dst)] = src
        st.cl = cl

    def real(self, st, p):
        for n in range(len(p), 0, -1):
            src = st.cl.get(("c", p[:n]))
            if src is not None:
                return self.real(st, src + p[n:])
        return p

    # changes
    def pre_call(self, I, st, node, ov, avs):
        n = (node.get("f") or "").rsplit("::", 1)[-1]
        if ov is not None and ov.path is not None:
            r = self.method(I, st, node, n, ov.path, avs)
            if r is not None:
                return r
        if n == "sort" and len(avs) == 2 and avs[0].path is not None:
            p = avs[0].path
            while p and p[-1] == "[]":
                p = p[:-1]
            v = self.get(st, p)
            if v is not None and all(is_seg(x) for x in v):
                self.put(st, p, sorted(v, key=lambda x: x[1:]))
                return [(st, V())]
        return None

    def method(self, I, st, node, n, p, avs):
        if n in ("indices", "rows", "cols") and not avs:
            # the segments of a set of rows
            v = self.items(st, ("path", p))
            if n == "cols" and self.both(st, p):
                return None
            if v and all(is_seg(x) for x in v) or \
                    v is not None and n == "indices":
                return [(st, V(self.real(st, p)))]
        if n in ("push_back", "emplace_back") and avs:
            v = self.items(st, ("path", p))
            if v is None:
                return None
            if n == "emplace_back" and len(avs) == 2:
                x = ("seg", self.rep(st, avs[0].k()),
                     self.rep(st, avs[1].k()))
            else:
                x = self.item(st, avs[0].k())
                if x is None and avs[0].path is not None:
                    x = ("path", self.real(st, avs[0].path))
            self.changed(I, st, p, n)
            self.put(st, p, v + (x,))
            return [(st, V())]
        if n in ("clear", "clearRows", "clearCols"):
            self.changed(I, st, p, n)
            self.put(st, p, ())
            return [(st, V())]
        if n in ("addRow", "addCol") and len(avs) == 2:
            v = self.items(st, ("path", p))
            self.changed(I, st, p, n)
            if v is not None:
                self.put(st, p, v + (("seg", self.rep(st, avs[0].k()),
                                      self.rep(st, avs[1].k())),))
            return [(st, V())]
        if n in ("updateRows", "updateCols", "updateIndices"):
            v = self.items(st, ("path", p))
            if v is not None:
                m = members(v)
                if m is not None:
                    self.put(st, p, runs(set(m)))
                return [(st, V())]
            return None
        if n == "insert" and len(avs) == 3 and avs[0].path is not None and \
                isinstance(self.rep(st, avs[1].k()), (int, float)):
            v = self.items(st, ("path", p))
            at = callname((node.get("a") or [None])[0])
            new = (self.item(st, avs[2].k()),) * \
                int(self.rep(st, avs[1].k()))
            self.changed(I, st, p, n)
            self.put(st, p, None if v is None else v + new
                     if at in ("end", "cend") else new + v
                     if at in ("begin", "cbegin") else None)
            return [(st, V())]
        if n == "insert" and len(avs) == 3 and \
                all(a.path is not None for a in avs):
            v = self.items(st, ("path", p))
            src = avs[1].path
            while src and src[-1] == "[]":
                src = src[:-1]
            w = self.items(st, ("path", src))
            at = [x for x in (node.get("a") or [])][:1]
            end = callname(at[0]) in ("end", "cend") if at else False
            beg = callname(at[0]) in ("begin", "cbegin") if at else False
            self.changed(I, st, p, n)
            if v is not None and w is not None and (end or beg):
                self.put(st, p, v + w if end else w + v)
            else:
                self.put(st, p, None)
            return [(st, V())]
        if n in ("resize", "assign") and avs:
            m = self.rep(st, avs[0].k())
            v = self.get(st, p)
            self.changed(I, st, p, n)
            if isinstance(m, (int, float)):
                m = int(m)
                x = self.item(st, avs[1].k()) if len(avs) > 1 else None
                v = () if v is None or n == "assign" else v
                self.put(st, p, (v + (x,) * m)[:m])
            else:
                self.put(st, p, None)
            return [(st, V(p))]
        if n in ("setZero", "setOnes", "setConstant", "fill"):
            x = 0 if n == "setZero" else 1 if n == "setOnes" else \
                self.item(st, avs[0].k())
            self.fill(I, st, p, x)
            return [(st, V(p))]
        return None

    def changed(self, I, st, p, how):
        if getattr(I, "wlog", None) is not None:
            I.wlog.append(p)
        st.forget(p)
        self.drop(st, p)

    def fill(self, I, st, p, x):
        b, idx = self.sel(st, p)
        v = self.get(st, b)
        self.changed(I, st, b if idx is None else p, "=")
        if idx is None or v is None:
            self.put(st, b, None)
            return
        v = list(v)
        for i in idx:
            v[i] = x
        self.put(st, b, v)

    def store(self, I, st, path, items):
        """path = items."""
        if path and isinstance(path[-1], tuple) and path[-1][0] == "#":
            b, idx = self.sel(st, path)
            v = self.get(st, b)
            if v is None:
                return
            if idx is None or items is None or len(items) != len(idx):
                self.put(st, b, None)
                return
            v = list(v)
            for i, x in zip(idx, items):
                v[i] = x
            self.put(st, b, v)
            return
        self.put(st, path, items)

    def write(self, I, st, path, node, how, val=None):
        if how == "alias" or how.endswith(("elementRef", "elementConstRef")):
            return
        k = val.k() if val is not None else None
        if path[-1:] in (("m_rows",), ("m_cols",), ("m_nbRows",),
                         ("m_nbCols",)):
            col, path = path[-1] == "m_cols", canon(path)
            if path[-1] in ("m_nbRows", "m_nbCols"):
                return
            if k is not None and empty(k):
                if not col:
                    self.drop(st, path)
                    self.put(st, path, None)
                return
            if col and self.get(st, path) is not None:
                # both: rows are followed
                st.cl = dict(st.cl)
                st.cl[("2", path)] = True
                return
        path = self.flat(path)
        if path and isinstance(path[-1], tuple) and path[-1][0] == "[]" and \
                len(path[-1]) > 1:
            # element
            up = path[:-1]
            b, idx = self.sel(st, up)
            v = self.get(st, b)
            i = self.pos(st, path[-1], len(idx) if idx is not None else None)
            if v is not None:
                old = None
                if idx is not None and i is not None and 0 <= i < len(idx):
                    old = v[idx[i]]
                    x = self.item(st, k) if k is not None else None
                    new = None
                    if how in ("=", "decl", "init"):
                        new = x
                    elif how in ("+=", "-=", "*=") and \
                            all(isinstance(y, (int, float))
                                for y in (old, x)):
                        new = {"+=": old + x, "-=": old - x,
                               "*=": old * x}[how]
                    elif how in ("++", "--") and \
                            isinstance(old, (int, float)):
                        new = old + (1 if how == "++" else -1)
                    v = list(v)
                    v[idx[i]] = new
                    self.put(st, b, v)
                else:
                    self.put(st, b, None)
                return
        if how in ("=", "decl", "init") and k is not None:
            v = self.items(st, k)
            it = self.item(st, k) if v is None else None
            view = bool(path) and isinstance(path[-1], tuple) and \
                path[-1][0] == "#"
            if v is not None or self.get(st, path) is not None or view:
                if not view:
                    src = st.cl.get(("c", path))
                    self.drop(st, path)
                    if v is not None and src is not None and \
                            val.path is not None:
                        st.cl = dict(st.cl)
                        st.cl[("c", path)] = src
                self.store(I, st, path, v)
                return
            self.drop(st, path)
            cl = dict(st.cl)
            cl.pop(("i", path), None)
            if is_seg(it):
                cl[("i", path)] = it
            st.cl = cl
            Numbers.write(self, I, st, path, node, how, val)
            return
        if how in ("+=", "-=") and k is not None:
            b, idx = self.sel(st, path)
            if self.get(st, b) is not None and idx is not None:
                v = self.get(st, b)
                w = self.items(st, k)
                v = list(v)
                for n, i in enumerate(idx):
                    ok = w is not None and len(w) == len(idx) and \
                        all(isinstance(y, (int, float)) for y in (v[i], w[n]))
                    v[i] = (v[i] + w[n] if how == "+=" else v[i] - w[n]) \
                        if ok else None
                self.put(st, b, v)
                return
        if path[-1:] in (("first",), ("second",)):
            up = path[:-1]
            x = self.member(st, up)
            if is_seg(x):
                f = path[-1] == "first"
                y = self.rep(st, k) if k is not None else None
                old = x[1] if f else x[2]
                new = None
                if how == "=":
                    new = y
                elif how in ("+=", "-=") and isinstance(y, (int, float)) \
                        and isinstance(old, (int, float)):
                    new = old + y if how == "+=" else old - y
                elif how in ("++", "--") and isinstance(old, (int, float)):
                    new = old + (1 if how == "++" else -1)
                z = ("seg", new, x[2]) if f else ("seg", x[1], new)
                if up and isinstance(up[-1], tuple) and up[-1][0] == "[]":
                    b = up[:-1]
                    v = self.get(st, b)
                    i = self.pos(st, up[-1], len(v) if v else None)
                    if v is not None and i is not None:
                        v = list(v)
                        v[i] = z
                        self.put(st, b, v)
                        return
                st.cl = dict(st.cl)
                st.cl[("i", up)] = z
                return
        if how not in ("rebind",):
            b, idx = self.sel(st, path)
            if self.get(st, b) is not None:
                self.put(st, b, None)
                return
        Numbers.write(self, I, st, path, node, how, val)


def canon(p):
    """Sets of rows or columns keep them in a member."""
    while p and p[-1] in ("m_rows", "m_cols"):
        p = p[:-1]
    return p


def empty(k):
    """The placeholder of selections of all rows or columns."""
    if isinstance(k, tuple):
        return any(empty(x) for x in k)
    return isinstance(k, str) and "empty_struct" in k


def callname(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "ctor") and \
            (e.get("x") or e.get("a")):
        e = e.get("x") or e["a"][0]
    return (e.get("f") or "").rsplit("::", 1)[-1] if isinstance(e, dict) \
        else ""


def runs(s):
    """Maximal segments of a set of indices."""
    out = []
    for i in sorted(s):
        if out and out[-1][1] + out[-1][2] == i:
            out[-1] = ("seg", out[-1][1], out[-1][2] + 1)
        else:
            out.append(("seg", i, 1))
    return tuple(out)


def settle(R, found, f):
    """Report what is wrong on some path followed entirely, or on each path.
    found: per path, state and list of (key, message, trace)."""
    bad = False
    if not found:
        return False
    every = None
    for st, vs in found:
        ks = {v[0] for v in vs}
        every = ks if every is None else every & ks
    for st, vs in found:
        for key, msg, trace in vs:
            if not st.cl.get("?") or key in every:
                R.bad(key, msg, f["file"], f["line"], trace)
                bad = True
            else:
                R.unclear(key)
    return bad
