"""Units of sizes and offsets: 'q' counts coefficients of configuration
vectors of Lie groups, 'v' counts coefficients of their tangent vectors."""
from .interp import norm

Q_CALLS = {"nq", "configSize", "outputSize", "inputSize",
           "rankInConfiguration", "idx_q", "rightHandSideSize"}
V_CALLS = {"nv", "numberDof", "outputDerivativeSize", "inputDerivativeSize",
           "rankInVelocity", "idx_v", "errorSize"}
Q_FIELDS = {"inputSize_", "nq"}
V_FIELDS = {"inputDerivativeSize_", "nv", "errorSize_", "dimension_"}
# containers indexed by configuration / tangent coefficients
Q_VECT = {"output", "rightHandSide", "rhs_implicit", "h_value", "f_value",
          "res_qout", "qin", "qSat_", "activeParameters_", "output_",
          "argFunction_", "qIn_", "qOut_"}
V_VECT = {"error", "comparison", "comparison_", "dq_", "OM_", "OP_",
          "saturation_", "derFunction_", "activeDerivativeParameters_",
          "mask_", "logOutput_", "diff_", "diffSmall_", "arg_", "error_"}
SIZES = {"size", "rows", "cols"}


def call_name(k):
    return k[1].rsplit("::", 1)[-1]


def path_unit(p):
    """Unit of the coefficients of the vector at this path."""
    x = [y for y in norm(p) if y != "[]"]
    if not x:
        return None
    n = x[-1]
    return "q" if n in Q_VECT else "v" if n in V_VECT else None


class Units:
    def __init__(self, local=None, vects=None):
        self.local = local or {}    # local scalar -> set of units
        self.vects = vects or {}    # local vector -> set of keys

    def vect(self, p):
        """Unit of the coefficients of a vector."""
        u = path_unit(p)
        if u is None and len(norm(p)) == 1 and p[0] in self.vects:
            return self.join([self.content(k) for k in self.vects[p[0]]])
        return u

    def content(self, k):
        """Unit of the coefficients of the vector value a key denotes."""
        if not isinstance(k, tuple) or not k:
            return None
        if k[0] == "path":
            return path_unit(k[1])
        if k[0] in ("init", "ctor") and k[-1] and isinstance(k[-1], tuple):
            a = k[-1]
            if isinstance(a[0], tuple):
                return self.content(a[0]) or (
                    self.of(a[0]) if len(a) == 1 else None)
        if k[0] == "call" and len(k) >= 4:
            n = call_name(k)
            if n == "log":
                return "v"
            if n in ("Zero", "Constant", "Ones", "Random") and k[3]:
                return self.of(k[3][0])
        return None

    def of(self, k):
        """'q', 'v', 'mix' (sum of both), None when unknown."""
        if not isinstance(k, tuple) or not k:
            return None
        if k[0] == "call" and len(k) >= 3:
            n = call_name(k)
            if n in Q_CALLS:
                return "q"
            if n in V_CALLS:
                return "v"
            if n in SIZES and isinstance(k[2], tuple) and \
                    k[2][:1] == ("path",):
                return self.vect(k[2][1])
            if n in ("max", "min") and len(k) > 3:
                return self.join([self.of(x) for x in k[3]])
            return None
        if k[0] == "path":
            p = k[1]
            if isinstance(p[-1], tuple) and p[-1][0] == "#" and \
                    len(p[-1]) > 1:
                n = p[-1][1]
                if n in Q_CALLS:
                    return "q"
                if n in V_CALLS:
                    return "v"
                if n in SIZES:
                    return self.vect(p[:-1])
                return None
            q = norm(p)
            if len(q) == 1 and p[0] in self.local:
                us = self.local[p[0]]
                return next(iter(us)) if len(us) == 1 else \
                    "mix" if len(us) > 1 else None
            if q[-1] in Q_FIELDS:
                return "q"
            if q[-1] in V_FIELDS:
                return "v"
            if q[-1] == "second" and len(q) >= 3:
                if q[-3] == "iq_":
                    return "q"
                if q[-3] == "iv_":
                    return "v"
            return None
        if k[0] == "bin" and k[1] in ("+", "-"):
            return self.join([self.of(k[2]), self.of(k[3])])
        return None

    def join(self, us):
        us = {u for u in us if u}
        if not us:
            return None
        return us.pop() if len(us) == 1 else "mix"
