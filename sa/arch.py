"""Archive events: what a serialization function writes to / reads from an
archive, in which order, and where what was read ends up."""
from .flow import FlowClient, weak_fields
from .interp import Interp, V, norm, TooBig
from .model import walk

SER = ("serialize", "save", "load")


def is_archive(n):
    t = (n or {}).get("r") or ""
    t2 = (n or {}).get("t") or ""
    return "archive" in t or ("archive" in t2 and "<" not in t2)


def literal(k):
    return k[1] if isinstance(k, tuple) and k and k[0] == "str" else None


class ArClient(FlowClient):
    """Events are kept in st.cl['ev'] as (name, path or ('base', class))."""

    def __init__(self, M, K, loading):
        FlowClient.__init__(self, weak_fields(M))
        self.K = K
        self.loading = loading
        self.early = {}         # path read before it was loaded -> line
        self.reads = set()
        self.writes = {}

    # -- events
    def event(self, I, st, name, v, node):
        st.cl = dict(st.cl)
        p = v.path if v is not None else None
        if p is None:
            p = ("?", v.k() if v is not None else None)
        if p[0] == "base:":
            st.cl["ev"] = st.cl.get("ev", ()) + ((name, p),)
            st.cl["base"] = st.cl.get("base", frozenset()) | {p[1]}
            return
        st.cl["ev"] = st.cl.get("ev", ()) + ((name, norm(p)),)
        if self.loading:
            I.write(st, p, node, "=", V(("ar:%s" % (name or "?"),)))
            st.cl = dict(st.cl)
            st.cl["w"] = st.cl.get("w", frozenset()) | {norm(p)}

    def pre_call(self, I, st, node, ov, avs):
        f = node.get("f") or ""
        name = f.rsplit("::", 1)[-1]
        a = node.get("a", [])
        if name == "make_nvp" and len(avs) >= 2:
            return [(st, V(avs[1].path, key=("nvp", avs[0].k(), avs[1].k()),
                           lam=("nvp", literal(avs[0].k()), avs[1])))]
        if name == "base_object" and avs:
            # the class is the template argument, the type of the result
            b = (node.get("r") or node.get("t") or "").replace(
                "const ", "").replace("&", "").strip()
            b = b.split("<")[0].strip()
            return [(st, V(("base:", b)))]
        if name in ("operator&", "operator<<", "operator>>") or \
                node.get("op") in ("&", "<<", ">>"):
            xs = ([node["o"]] if node.get("o") else []) + a
            vs = ([ov] if node.get("o") else []) + list(avs)
            if xs and is_archive(xs[0]) and len(vs) == 2:
                v = vs[1]
                nm = None
                if isinstance(v.lam, tuple) and v.lam[0] == "nvp":
                    nm, v = v.lam[1], v.lam[2]
                elif v.key and v.key[0] == "nvp":
                    nm = literal(v.key[1])
                self.event(I, st, nm, v, node)
                return [(st, V(vs[0].path))]
            return None
        if a and is_archive(a[0]) and not I.M.callees(node) and \
                len(avs) >= 2:
            nm = None
            for v in avs[1:]:
                if literal(v.k()) is not None:
                    nm = literal(v.k())
                elif v.path is not None and v.const is not None:
                    continue
                elif v.path is not None and v.path[0] != "arg:version":
                    self.event(I, st, nm, v, node)
            return [(st, V())]
        return None

    # -- accesses of the loaded object
    def read(self, I, st, path, node):
        p = norm(path)
        if p[0] == "this" and len(p) > 1:
            self.reads.add(p)
            w = st.cl.get("w", frozenset())
            if not any(q == p[:len(q)] or p == q[:len(p)] for q in w):
                self.early.setdefault((p[1], frozenset(
                    st.cl.get("base", frozenset()))), node.get("l"))

    def write(self, I, st, path, node, how, val=None):
        FlowClient.write(self, I, st, path, node, how, val)
        p = norm(path)
        if p[0] == "this" and len(p) > 1:
            st.cl = dict(st.cl)
            st.cl["w"] = st.cl.get("w", frozenset()) | {p}
            self.writes.setdefault(p, node.get("l"))


    def reach_back(self, p):
        """Members of the object from which the datum at p was computed."""
        seen, todo, out = {p}, [p], set()
        while todo:
            q = todo.pop()
            for t, s, k in self.edges:
                n = min(len(t), len(q))
                if t[:n] != q[:n] or s in seen:
                    continue
                seen.add(s)
                if s[0] == "this":
                    out.add(s)
                else:
                    todo.append(s)
        return out


def run(M, f, K, loading):
    c = ArClient(M, K, loading)
    I = Interp(M, c)
    rs = I.run(f, V(("this",), cls=K))
    return c, rs


def dep_members(M, f, depth=0):
    """Members of its second parameter that an uninstantiated (free)
    serialization function hands to the archive."""
    out = set()
    if len(f["ps"]) < 2:
        return out
    ar, ob = f["ps"][0]["n"], f["ps"][1]["n"]

    def mentions(n, v):
        return any(x.get("k") == "var" and x.get("n") == v for x in walk(n))

    for n in walk(f.get("body") or {}):
        if n.get("k") not in ("call", "bin"):
            continue
        if n.get("k") == "bin" and n.get("op") not in ("&", "<<", ">>"):
            continue
        if n.get("k") == "bin" and not mentions(n.get("x"), ar):
            continue
        if n.get("k") == "call":
            xs = ([n["o"]] if n.get("o") else []) + (n.get("a") or [])
            if not any(x.get("k") == "var" and x.get("n") == ar
                       for x in xs):
                continue
        for x in walk(n):
            if x.get("k") in ("mem", "dep") and x.get("n") and \
                    x is not n and mentions(x, ob):
                out.add(x["n"])
        for x in n.get("a") or []:
            # the whole object handed to another function of the repository
            if x.get("k") == "var" and x.get("n") == ob and depth < 3:
                nm = ((n.get("ce") or {}).get("n") or n.get("f") or
                      "").rsplit("::", 1)[-1]
                for g in M.dep_funcs:
                    if g["q"].rsplit("::", 1)[-1] == nm and g is not f and \
                            len(g["ps"]) >= 2:
                        out |= dep_members(M, g, depth + 1)
    return out
