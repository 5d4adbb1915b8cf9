"""Program model: declarations, class hierarchy, call resolution."""
import collections


class Model:
    def __init__(self, facts):
        self.facts = facts
        self.funcs = []
        self.dep_funcs = []
        self.recs = {}
        self.enums = {}
        self.by_u = collections.defaultdict(list)
        self.by_q = collections.defaultdict(list)
        self.overridden_by = collections.defaultdict(set)
        for d in facts["decls"]:
            if d["kind"] == "func":
                (self.dep_funcs if d.get("dep") else self.funcs).append(d)
                if not d.get("dep"):
                    self.by_u[d["u"]].append(d)
                    self.by_q[d["q"]].append(d)
                for o in d.get("ov", []):
                    self.overridden_by[o].add(d["u"])
            elif d["kind"] == "rec":
                self.recs.setdefault(d["q"], []).append(d)
            elif d["kind"] == "enum":
                self.enums[d["q"]] = d
        self.method_decl = {}
        for q, rs in self.recs.items():
            for r in rs:
                for m in r["methods"]:
                    self.method_decl.setdefault(m["u"], (q, m))
                    for o in m.get("ov", []):
                        self.overridden_by[o].add(m["u"])
        self._bases = {}
        self._desc = collections.defaultdict(set)
        for q, rs in self.recs.items():
            b = []
            for r in rs:
                for x in r["bases"]:
                    if x not in b:
                        b.append(x)
            self._bases[q] = b
        for q in self.recs:
            for a in self.ancestors(q):
                self._desc[a].add(q)
        self.accessor_cache = {}

    # --- hierarchy
    def bases(self, q):
        return self._bases.get(q, [])

    def ancestors(self, q):
        out = []
        todo = list(self.bases(q))
        while todo:
            b = todo.pop(0).split("<")[0]
            if b not in out and b != q:
                out.append(b)
                todo += self.bases(b)
        return out

    def descendants(self, q):
        return sorted(self._desc.get(q, ()))

    def isa(self, q, base):
        return q == base or base in self.ancestors(q)

    def rec(self, q):
        rs = self.recs.get(q)
        if not rs:
            return None
        for r in rs:
            if not r.get("dep"):
                return r
        return rs[0]

    def fields(self, q):
        r = self.rec(q)
        return r["fields"] if r else []

    def field(self, q, n):
        for c in [q] + self.ancestors(q):
            for f in self.fields(c):
                if f["n"] == n:
                    return c, f
        return None, None

    # --- functions
    def methods(self, q, name=None):
        return [f for f in self.funcs if f.get("cls") == q and
                (name is None or f["q"].rsplit("::", 1)[-1] == name)]

    def final_overrider(self, u, cls):
        """USR of the definition of virtual method u in dynamic class cls."""
        fam = self._family(u)
        for c in [cls] + self.ancestors(cls):
            for r in self.recs.get(c, []):
                for m in r["methods"]:
                    if m["u"] in fam:
                        return m["u"]
        return u

    def _family(self, u):
        """All methods overriding u (transitively), u included."""
        key = ("fam", u)
        if key in self.accessor_cache:
            return self.accessor_cache[key]
        fam = {u}
        todo = [u]
        while todo:
            x = todo.pop()
            for y in self.overridden_by.get(x, ()):
                if y not in fam:
                    fam.add(y)
                    todo.append(y)
        self.accessor_cache[key] = fam
        return fam

    def definition(self, u, ta=None):
        fs = self.by_u.get(u)
        if not fs:
            return None
        if ta is not None and len(fs) > 1:
            for f in fs:
                if f.get("ta") == ta:
                    return f
        return fs[0]

    def callees(self, call, dyncls=None):
        """Definitions in the repository a call node may reach.

        dyncls: exact dynamic class of the object when known."""
        u = call.get("u")
        if not u:
            return []
        if call.get("virt") and not call.get("qual"):
            if dyncls:
                d = self.definition(self.final_overrider(u, dyncls))
                return [d] if d else []
            out = []
            for x in sorted(self._family(u)):
                d = self.definition(x)
                if d:
                    out.append(d)
            return out
        d = self.definition(u, call.get("ta"))
        return [d] if d else []


# --- generic tree walking
def walk(n):
    """Yields every expression/statement node below n (n included)."""
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                for x in walk(v):
                    yield x
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                for x in walk(v):
                    yield x


def short(q):
    return q.replace("hpp::constraints::", "")
