"""Where do the data given to a constructor / factory / setter end up?

FlowClient records, over all paths, edges target <- source between access
paths: 'e' (the object itself is copied or aliased), 'n' (its name is
stored), 'd' (it was handed to a constructor or inserted in a container) and
'i' (the value was computed from it). Weak pointers to the object itself are
not followed.
"""
from .interp import Client, Interp, V, norm, deps, NOC, overlap, covers


def names(key):
    """Paths whose name() the key is computed from."""
    out = set()
    if isinstance(key, tuple):
        if key and key[0] == "call" and \
                key[1].rsplit("::", 1)[-1] == "name":
            return set(deps(key))
        for x in key:
            out |= names(x)
    return out


class FlowClient(Client):
    assume_asserts = True
    loop_min1 = True

    def __init__(self, weak=()):
        self.weak = set(weak)
        self.edges = set()      # (target, source, kind)
        self.lines = {}

    def add(self, t, s, kind, node=None):
        t, s = norm(t), norm(s)
        if t == s or self.weak & set(t) or self.weak & set(s):
            return
        e = (t, s, kind)
        if e not in self.edges:
            self.edges.add(e)
            if node is not None:
                self.lines[e] = node.get("l")

    def from_val(self, t, v, node):
        if v is None:
            return
        if v.path is not None:
            self.add(t, v.path, "e", node)
        if v.key is not None:
            k = v.key
            if k[0] == "ctor" and len(k[2]) == 1:
                k = k[2][0]
            if k[0] == "path":
                self.add(t, k[1], "e", node)
                return
            named = names(k)
            for d in deps(k):
                n = d in named or any(isinstance(x, tuple) and
                                      x[:2] == ("#", "name") for x in d)
                self.add(t, d, "n" if n else "i", node)

    def write(self, I, st, path, node, how, val=None):
        self.from_val(path, val, node)

    def copied(self, I, st, dst, src, node):
        self.add(dst, src, "e", node)

    def rename(self, st, old, new):
        self.add((new,), (old,), "e")

    def post_call(self, I, st, node, ov, avs, res):
        # external (or not inlined) calls: object and mutable arguments get
        # information from every argument
        f = I.M.callees(node) if node["k"] == "call" else \
            [x for x in [I.M.definition(node.get("u") or "")] if x]
        if f and f[0].get("body") is not None and \
                f[0]["q"] in I.inlined:
            return
        name = (node.get("f") or "").rsplit("::", 1)[-1]
        made = res is not None and res.path is not None and \
            res.path[0][0] in "NC" and (ov is None or ov.path is None)
        pm = node.get("pm") or []
        for a in avs:
            if a is None or a.path is None and a.key is None:
                continue
            srcs = [(a.path, "d")] if a.path is not None else \
                [(d, "i") for d in deps(a.key)]
            for s, k in srcs:
                if made:
                    self.add(res.path, s, k, node)
                if ov is not None and ov.path is not None and \
                        not node.get("cm") and not node.get("cv"):
                    kk = k if name in ("push_back", "emplace_back", "insert",
                                       "operator=", "push_front",
                                       "assign") or \
                        node["k"] == "ctor" else "i"
                    self.add(ov.path, s, kk, node)
                for n, b in enumerate(avs):
                    if b is not a and n < len(pm) and pm[n] == "m" and \
                            b is not None and b.path is not None:
                        self.add(b.path, s, "i", node)

    # ------------------------------------------------------------------
    def reach(self, src, kinds):
        """Paths that hold src through edges of these kinds."""
        out = {norm(src)}
        todo = [norm(src)]
        while todo:
            p = todo.pop()
            for t, s, k in self.edges:
                if k not in kinds:
                    continue
                q = None
                if covers(p, s):
                    if len(s) > len(p) and k == "e" and "d" not in kinds:
                        continue        # part of src only
                    q = t
                elif covers(s, p):
                    q = t + p[len(s):] if k in "e" else t
                if q and q not in out and len(q) < 9:
                    out.add(q)
                    todo.append(q)
        return out


def weak_fields(M):
    out = set()
    for q, rs in M.recs.items():
        for r in rs:
            for f in r["fields"]:
                if f.get("r") == "std::weak_ptr" or "WkPtr" in f["t"]:
                    out.add(f["n"])
    return out


def flow(M, f, this=None, args=None):
    c = FlowClient(weak_fields(M))
    i = Interp(M, c)
    rs = i.run(f, this, args)
    return c, rs
