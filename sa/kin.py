"""Kinematic events of the robot model: what a call sets, computes or reads."""
from .interp import norm, NOC

FLAG = {"JOINT_POSITION": 1, "JACOBIAN": 2, "VELOCITY": 4, "ACCELERATION": 8,
        "COM": 16, "COMPUTE_ALL": 0xffff}
POS, JAC, COM = 1, 2, 16


def flags(v, node):
    """Integer value of a computation flag, None if unknown."""
    if node is not None and "cv" in node:
        c = node["cv"]
        if isinstance(c, int):
            return c
        return FLAG.get(str(c).rsplit("::", 1)[-1])
    c = v.const if v is not None else NOC
    if c is NOC:
        k = v.key if v is not None else None
        return keyflags(k)
    if isinstance(c, int):
        return c
    return FLAG.get(str(c).rsplit("::", 1)[-1])


def keyflags(k):
    if not isinstance(k, tuple):
        return None
    if k[0] == "lit":
        if isinstance(k[1], int):
            return k[1]
        return FLAG.get(str(k[1]).rsplit("::", 1)[-1])
    if k[0] == "bin" and k[1] == "|":
        a, b = keyflags(k[2]), keyflags(k[3])
        return None if a is None or b is None else a | b
    if k[0] == "ctor" and len(k[2]) == 1:
        return keyflags(k[2][0])
    return None


def is_data(node):
    return (node.get("r") or "").endswith("DeviceData")


def event(node, ov, avs):
    """-> (kind, device value or None for the shared robot, node of the
    device, extra) or None.  kinds: config fk read com comread geom dist"""
    f = node.get("f") or ""
    if "pinocchio" not in f:
        return None
    cls, _, name = f.rpartition("::")
    cls = cls.rsplit("::", 1)[-1]
    a = [x for x in node.get("a", []) if x.get("k") != "defarg"]
    o = node.get("o") or {}
    if name in ("currentConfiguration",) and a:
        return ("config", ov, o, (avs[0], a[0]))
    if name == "computeForwardKinematics":
        fl = flags(avs[0], a[0]) if a else FLAG["COMPUTE_ALL"]
        return ("fk", ov, o, fl)
    if cls in ("Joint", "Frame", "JointFrame", "CollisionObject",
               "Body") and name in ("currentTransformation", "jacobian",
                                    "getTransform", "fcl", "geomData"):
        need = POS | JAC if name == "jacobian" else POS
        if a and is_data(a[0]):
            return ("read", avs[0], a[0], need)
        return ("read", None, None, need)
    if cls == "CenterOfMassComputation":
        if name == "compute":
            if a and is_data(a[0]):
                fl = flags(avs[1], a[1]) if len(a) > 1 else 0xffff
                return ("com", avs[0], a[0], fl)
            fl = flags(avs[0], a[0]) if a else 0xffff
            return ("com", None, None, fl)
        if name in ("com", "jacobian", "mass"):
            need = {"com": COM, "jacobian": JAC, "mass": 0}[name]
            if a and is_data(a[0]):
                return ("comread", avs[0], a[0], need)
            return ("comread", None, None, need)
    if name in ("positionCenterOfMass", "jacobianCenterOfMass"):
        return ("read", ov, o, POS | COM)
    if name == "updateGeometryPlacements":
        return ("geom", avs[1] if len(avs) > 1 else None,
                a[1] if len(a) > 1 else None, None)
    if name == "computeDistances" or name == "computeCollisions":
        return ("dist", None, None, None)
    return None


def device_key(ev, known):
    """Identity of the robot data an event is about."""
    kind, v, n, _ = ev
    if v is None or v.path is None:
        return "shared"
    p = norm(v.path)
    if n is not None and (n.get("r") or "").endswith("DeviceSync"):
        return p
    if p in known:
        return p
    if n is not None and is_data(n):
        x = n
        while x is not None and x.get("k") in ("call", "cast", "paren",
                                               "mem"):
            o = x.get("o") or x.get("x") or x.get("b")
            if x.get("k") == "call" and o is None:
                break
            if o is not None and \
                    (o.get("r") or "").endswith("DeviceSync"):
                return p
            x = o
    if p[0] in ("this",) or p[0].startswith(("arg:", "::", "T")):
        return "shared"
    return p
