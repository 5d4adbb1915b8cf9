"""Case analysis over a finite abstraction: conditions on quantities the case
fixes are decided, all others fork."""
from .interp import Client

REL = {"<": lambda a, b: a < b, "==": lambda a, b: a == b,
       "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
       ">=": lambda a, b: a >= b, "!=": lambda a, b: a != b}


class Cases(Client):
    """leaf(st, key) gives the representative of a quantity in the case: a
    number, a string, a boolean, a set of these (coefficients) or None."""

    def leaf(self, st, key):
        return None

    def virtual(self, I, st, node, cands, ov, avs):
        return cands if len(cands) == 1 else []

    def rep(self, st, k):
        if not isinstance(k, tuple) or not k:
            return None
        r = self.leaf(st, k)
        if r is not None:
            return r
        if k[0] == "lit":
            return k[1]
        if k[0] == "bin" and len(k) == 4:
            a, b = self.rep(st, k[2]), self.rep(st, k[3])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                try:
                    return {"+": a + b, "-": a - b, "*": a * b}.get(k[1])
                except TypeError:
                    return None
            return None
        if k[0] == "neg":
            a = self.rep(st, k[1])
            return -a if isinstance(a, (int, float)) and \
                not isinstance(a, bool) else None
        if k[0] == "cwise" and len(k) == 4:
            a, b = self.rep(st, k[2]), self.rep(st, k[3])
            if isinstance(b, frozenset):
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=",
                                  ">=": "<="}.get(k[1], k[1])
            else:
                op = k[1]
            if isinstance(a, frozenset) and isinstance(b, (int, float)):
                return frozenset(REL[op](x, b) for x in a)
            return None
        if k[0] == "call":
            n = k[1].rsplit("::", 1)[-1]
            if n in ("sqrt", "abs", "pow") and len(k) > 3 and k[3]:
                x = [self.rep(st, y) for y in k[3]]
                if all(isinstance(y, (int, float)) for y in x):
                    return x[0] ** .5 if n == "sqrt" else abs(x[0]) \
                        if n == "abs" else x[0] ** (x[1] if len(x) > 1 else 1)
                return None
            o = self.rep(st, k[2]) if len(k) > 2 else None
            if isinstance(o, frozenset) and o:
                if n in ("eval", "array", "matrix", "derived", "transpose"):
                    return o
                if all(isinstance(x, bool) for x in o):
                    # a set of truth values of coefficients
                    if n == "any":
                        return True in o
                    if n == "all":
                        return False not in o
                elif n == "maxCoeff":
                    return max(o)
                elif n == "minCoeff":
                    return min(o)
            if n in ("std::min", "min", "max", "std::max") and len(k) > 3:
                xs = [self.rep(st, x) for x in k[3]]
                if len(xs) == 2 and all(isinstance(x, (int, float))
                                        for x in xs):
                    return min(xs) if "min" in n else max(xs)
        return None

    def choose(self, I, st, key):
        if key[0] == "cmp":
            a, b = self.rep(st, key[2]), self.rep(st, key[3])
            if a is None or b is None or isinstance(a, frozenset) or \
                    isinstance(b, frozenset):
                return None
            num = isinstance(a, (int, float)) and isinstance(b, (int, float))
            if key[1] == "==" and (num or type(a) is type(b)):
                return a == b
            if key[1] == "<" and num:
                return a < b
        if key[0] in ("truth", "nonnull"):
            r = self.rep(st, key[1])
            if isinstance(r, (bool, int)):
                return bool(r)
        return None


class Numbers(Cases):
    """Also follows scalar variables whose representative is known."""
    loop_min1 = True

    def num(self, st, p):
        return st.cl.get(("n", p))

    def keep(self, st, p, v):
        cl = dict(st.cl)
        if isinstance(v, (int, float, bool, str)):
            cl[("n", p)] = v
        else:
            cl.pop(("n", p), None)
        st.cl = cl

    def known(self, st, path):
        return st.cl.get(("n", path))

    def rename(self, st, old, new):
        st.cl = {(k[0], (new,) + k[1][1:]) if isinstance(k, tuple) and
                 len(k) == 2 and isinstance(k[1], tuple) and k[1] and
                 k[1][0] == old else k: v for k, v in st.cl.items()}

    def rep(self, st, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "path":
            r = self.leaf(st, k)
            return r if r is not None else st.cl.get(("n", k[1]))
        return Cases.rep(self, st, k)

    def write(self, I, st, path, node, how, val=None):
        if how == "alias":
            return
        old = st.cl.get(("n", path))
        v = self.rep(st, val.k()) if val is not None else None
        if isinstance(v, frozenset):
            v = None
        if how in ("=", "decl", "init"):
            self.keep(st, path, v)
        elif how in ("++", "--"):
            if old is None:
                return
            self.keep(st, path, old + (1 if how == "++" else -1))
        elif how in ("+=", "-=", "*=") and old is not None and \
                isinstance(v, (int, float)):
            self.keep(st, path, old + v if how == "+=" else old - v
                      if how == "-=" else old * v)
        elif old is not None:
            self.keep(st, path, None)
