"""Frame types of rotations: a rotation (matrix, quaternion, angle-axis, rotation vector) that maps coordinates in frame b to
coordinates in frame a has type ("R", a, b).  The identity fits any pair of equal frames; "junk" is a value not in force."""
from .interp import Domain, Val
from .prog import strip_t

ID = ("R", None, None)
JUNK = ("junk",)
ERR = "err"

SAME = {"toRotationMatrix", "normalized", "coeffs", "derived", "eval", "noalias", "matrix", "cast", "ctor", "vec4", "conservative",
        "normalize", "operator()"}
INV = {"transpose", "inverse", "conjugate", "adjoint"}
# conversions between representations (their numerical content is not the subject here)
CONV = {"rotationVectorToQuaternion", "rotationVectorToRotationMatrix", "rotationVectorToAngleAxis", "quaternionToRotationVector",
        "rotationMatrixToRotationVector", "rotationMatrixToRollPitchYaw", "rollPitchYawToRotationMatrix", "orthogonalizeRotationMatrix",
        "rotationMatrixToQuaternion"}
IDENT = {"Identity", "zeroRotationQuaternion", "setIdentity", "UnitRandom", "randomRotationQuaternion"}


def compose(a, b):
    if a is None or b is None:
        return None
    if a[0] == ERR or b[0] == ERR:
        return a if a[0] == ERR else b
    if a == JUNK or b == JUNK:
        return (ERR, "uses a representation that is not in force")
    if a[0] == "R" and b[0] == "R":
        if a == ID:
            return b
        if b == ID:
            return a
        if a[2] != b[1]:
            return (ERR, "composes %s with %s" % (show(a), show(b)))
        return ("R", a[1], b[2])
    if a[0] == "R" and b[0] == "V":
        if a == ID:
            return b
        if b[1] is not None and a[2] != b[1]:
            return (ERR, "applies %s to a vector in frame %s" % (show(a), b[1]))
        return ("V", a[1])
    return None


def invert(a):
    if a is None or a[0] == ERR:
        return a
    if a == JUNK:
        return (ERR, "uses a representation that is not in force")
    if a[0] == "R":
        return ("R", a[2], a[1])
    return None


def show(a):
    return "nothing known" if a is None else "%s<-%s" % (a[1], a[2]) if a[0] == "R" else "in %s" % a[1] if a[0] == "V" else str(a[-1])


class FrameDomain(Domain):
    def __init__(self):
        self.errors = []       # (node, frame, message)

    def read(self, I, st, val, node, fr):
        v = st.d.get(val.loc)
        if val.sub:
            names = [x.name for x in val.sub]
            if all(n in ("noalias", "coeffs", "derived", "matrix", "segment") for n in names):
                return v
            return None
        return v

    def put(self, st, loc, v):
        if v is None:
            st.d.pop(loc, None)
        else:
            st.d[loc] = v

    def write(self, I, st, lhs, val, node, fr, op="="):
        if lhs.loc is None:
            return
        v = val.v if val is not None else None
        if lhs.sub and not all(x.name in ("noalias", "coeffs", "derived", "matrix") for x in lhs.sub):
            v = None
        if v is not None and v[0] == ERR:
            self.err(node, fr, v)
        if op == "copy":
            return
        if op in ("method:normalize", "method:stableNormalize"):
            return
        self.put(st, lhs.loc, v)

    def assert_fails(self, I, node, fr):
        f = fr
        while f.parent is not None:
            node, f = f.callnode, f.parent
        self.errors.append((node, fr, "an assertion fails (%s): a representation that is not in force is used" % fr.fn["q"]))

    def err(self, node, fr, v):
        self.errors.append((node, fr, v[1]))

    def op(self, I, st, name, node, vals, fr):
        vs = [v.v for v in vals]
        n = name.lstrip(".")
        if n == "*" and len(vs) == 2 and None not in vs:
            return compose(vs[0], vs[1])
        if n in INV and vs:
            return invert(vs[0])
        if n in IDENT:
            return ID
        if n in SAME and len(vs) == 1:
            return vs[0]
        if n in ("+", "-", "*", "/", "neg", "un-", "unary-") and any(v is not None and v[0] in ("R", "mod") and v != ID for v in vs):
            return ("mod", "a rotation changed by %s" % n)     # no longer the rotation it was
        if n in ("+", "-") and len(vs) == 2 and all(v and v[0] == "V" for v in vs):
            return vs[0] if vs[0][1] == vs[1][1] else (ERR, "adds vectors of different frames")
        return None

    def call(self, I, st, node, fn, obj, args, fr):
        if node.get("k") == "ctor" or args is None:
            return None
        name = strip_t(node.get("f", "")).rsplit("::", 1)[-1]
        if name in CONV and args:
            v = I.rv(st, args[0], node["a"][0], fr).v
            if v == JUNK:
                v = (ERR, "uses a representation that is not in force")
            return [(st, Val(v=v, node=node))]
        if name in IDENT and not args:
            return [(st, Val(v=ID, node=node))]
        return None

    def ext(self, I, st, node, name, obj, args, fr):
        short = name.rsplit("::", 1)[-1]
        if short in IDENT and name.startswith("Eigen") and not args and obj is None:
            return Val(v=ID, node=node)
        return None
