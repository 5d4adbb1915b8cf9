"""Helpers shared by the checks."""
from .interp import Client, Interp, V, norm, TooBig, show_path
from .model import short, walk

NS = "hpp::constraints::"
DF = NS + "DifferentiableFunction"
IMPL = NS + "Implicit"


def base(q):
    return q.rsplit("::", 1)[-1]


def tag(f):
    return "<%s>" % f["cta"] if f.get("cta") else ""


def evaluations(M, root=DF, names=("impl_compute", "impl_jacobian")):
    """(class, function) for every evaluation function defined in a class
    derived from root, or inherited by a class that adds nothing."""
    for K in [root] + M.descendants(root):
        for n in names:
            for g in M.methods(K, n):
                if g.get("body") is not None:
                    yield K, g


def own_classes(M, root):
    return [K for K in [root] + M.descendants(root) if M.rec(K)]


def argname(g, n):
    return "arg:" + (g["ps"][n]["n"] or str(n))


def field_of(M, K, path):
    """Field declaration of the first member on the path."""
    if len(path) < 2 or not isinstance(path[1], str):
        return None, None
    return M.field(K, path[1])
