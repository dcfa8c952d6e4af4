"""P19: conversions between representations of rotations denote the same rotation.

The conversion functions are followed with cell-wise value numbering (sa/fp.py) down to the operations of Eigen; numerical guards are decided by
intervals: the argument is either far from the degenerate case (its norm is bounded from below) or exactly degenerate.
  R1  rotation vector -> angle-axis, matrix, quaternion: the exponential; the identity for the null vector
  R2  matrix, quaternion, four coefficients -> rotation vector: the logarithm
  R3  roll, pitch, yaw: Rz(yaw) Ry(pitch) Rx(roll), and back
  R4  merging of a tilt with a yaw; horizontal and orthogonal invariant vectors; the degenerate cases
  R5  yaw and angle extraction
  R6  smallest rotation between two vectors
  R7  Jacobians of the exponential and of a rotated vector
  R9  the test of a rotation matrix accepts the rotations and nothing else
  R8  a regulated rotation vector denotes the same rotation
"""
import itertools
import math
from .. import fp
from ..fp import FpDomain, FpInterp, M, S, vec, sc, mat, stack, zero, eye, mul, same, quat, rot, q2R, qmul, qexp, Rlog, cross, dot, skew, inv, num, Pm, H, trig, sqrt, qr
from ..interp import St
from ..drive import Drive, Stops
from ..extract import AnalysisError
from .models import Case

K = "stateObservation::kine::"


class Free(Drive):
    """calls of free functions"""

    def __init__(self, prog, tag, setup=None):
        Drive.__init__(self, prog, K[:-2], tag, setup=setup)

    def overloads(self, name, types):
        """overloads with parameters of these kinds: v (vector of the number), R, q, s (scalar)"""
        out = []
        for f in self.prog.by_name.get(K + name, []):
            if f.get("body") is not None and tuple(self.kind(p) for p in f["p"]) in types:
                out.append(f)
        if not out:
            raise AnalysisError("%s: %s%s not found" % (self.tag, K, name))
        return out

    def kind(self, p):
        t = self.prog.type(p)
        if "Quaternion" in t.get("s", "") + t.get("c", ""):
            return "q"
        if "rows" in t or t.get("rows"):
            return "R" if t.get("cols") == 3 else "v%s" % t.get("rows")
        return "s"


def rx(a):
    c, s = trig(a.x[0])
    return M(3, 3, [1, 0, 0, 0, c, -s % Pm, 0, s, c], p=a.p)


def ry(a):
    c, s = trig(a.x[0])
    return M(3, 3, [c, 0, s, 0, 1, 0, -s % Pm, 0, c], p=a.p)


def rz(a):
    c, s = trig(a.x[0])
    return M(3, 3, [c, -s % Pm, 0, s, c, 0, 0, 0, 1], p=a.p)


def pick(make, ok):
    """an input whose norms have square roots in the field"""
    for i in range(1000):
        x = make(str(i))
        if ok(x):
            return x
    raise AnalysisError("P19: no input")


def n2(v):
    return dot(v, v).x[0]


def bounded(d, least, *vs):
    """the norms of these vectors are at least this"""
    b = {}
    for v in vs:
        q = n2(v)
        b[q], b[sqrt(q)] = (least * least, 1e3), (least, 1e3)
        fp.POS.add(sqrt(q))
        fp.POS.add(q)
    return b


class Rot:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.c = Case(prog, rep, "P19")

    def run(self, name, types, args, want, note="", bounds=None, angles=(), out=None, same_=None):
        """runs every overload taking such arguments and compares the result (and the output parameters)"""
        def setup(dom):
            dom.conv = False
            dom.bounds = bounds or {}
            dom.angles = list(angles)
        d = Free(self.prog, "P19", setup)
        types = types if isinstance(types, list) else [types]
        for f in d.overloads(name, types):
            self.rep.count("functions")
            outs = d._run([St()], f, list(args) + [None] * (len(f["p"]) - len(args)))
            if want is None:
                if outs:
                    self.c.rep.count("decided")
                    self.c.bad(d, name, "singular", f, "%s gives a result%s" % (name, note))
                continue
            vals = d.value(f, outs)
            if same_ is not None:
                for s, v in vals:
                    r = same_(v)
                    self.rep.count("undecided" if r is None else "decided")
                    if r is False:
                        self.c.bad(d, name, "result", f, "the result of %s is not what it should be%s" % (name, note))
                self.c.faults(d, f, note, name)
                continue
            self.c.compare(d, name, vals, want, f, note)
            for i, w in (out or {}).items():
                if i < len(f["p"]):
                    p = f["p"][i]
                    self.c.compare(d, name, [(s, s.d.get((("arg", i, p["n"]),))) for s, v in outs], [("output " + p["n"], w)], f, note)


def exponential(r):
    v = pick(lambda i: vec("v" + i), lambda v: qr(n2(v)))
    q = qexp(v)
    for note, x, w, b in ((" of a rotation vector far from zero", v, q, bounded(None, 1e-6, v)), (" of a null rotation vector", zero(3, 1), qexp(zero(3, 1)), {})):
        r.run("rotationVectorToAngleAxis", ("v3",), [x], M(3, 3, q2R(w).x, "aa", w.p), note, b)
        r.run("rotationVectorToRotationMatrix", ("v3",), [x], q2R(w), note, b)
        r.run("rotationVectorToQuaternion", ("v3",), [x], w, note, b)


def logarithm(r):
    q = quat("q")
    R = q2R(q)
    r.run("rotationMatrixToRotationVector", ("R",), [R], Rlog(R))
    r.run("quaternionToRotationVector", [("q",), ("v4",)], [q], Rlog(R))
    r.run("scalarComponent", ("q",), [q], S2(q.x[3], q))
    r.run("vectorComponent", ("q",), [q], M(3, 1, q.x[:3], p=q.p))
    r.run("zeroRotationQuaternion", (), [], qexp(zero(3, 1)))


def S2(x, like):
    return M(1, 1, [x], p=like.p)


def rpy(r):
    a, b, c = sc("roll"), sc("pitch"), sc("yaw")
    R = mul(mul(rz(c), ry(b)), rx(a))
    v = stack(a, b, c)
    q = qmul(qmul(qexp(stack(zero(2, 1), c)), qexp(M(3, 1, [0, b.x[0], 0], p=b.p))), qexp(stack(a, zero(2, 1))))
    for args, ts in (([a, b, c], ("s", "s", "s")), ([v], ("v3",))):
        r.run("rollPitchYawToRotationMatrix", ts, args, R)
        r.run("rollPitchYawToQuaternion", ts, args, q)
    fp.POS.add(trig(b.x[0])[0])
    ang = [(x.x[0],) + trig(x.x[0]) for x in (a, b, c)]
    r.run("rotationMatrixToRollPitchYaw", [("R",), ("R", "v3")], [R], v, " of a rotation with a pitch below a right angle", angles=ang, out={1: v})


def merged(v1, R2, m):
    """rotation of tilt v1 for which the horizontal vector m is the image of the closest vector to R2^T m"""
    ez = M(3, 1, [0, 0, 1])
    ml = mul(R2.T, m)
    x = cross(ml, v1)
    x = x * S2(inv(sqrt(n2(x))), x)
    y = cross(v1, x)
    me = cross(m, ez)
    A = M(3, 3, [e for i in range(3) for e in (me.x[i], m.x[i], ez.x[i])], p=m.p)
    return mul(A, M(3, 3, x.x + y.x + v1.x, p=x.p | y.p | v1.p))


def tilts(r):
    ez, ex = M(3, 1, [0, 0, 1]), M(3, 1, [1, 0, 0])
    t = sc("heading")
    c, s = trig(t.x[0])
    m = M(3, 1, [c, s, 0], p=t.p)

    def ok(i):
        x = cross(mul(rot("R2" + i).T, m), mul(rot("R1" + i).T, ez))
        y = cross(mul(rot("R2" + i).T, ex), mul(rot("R1" + i).T, ez))
        w = mul(rot("R2" + i), mul(rot("R1" + i).T, ez))
        h = mul(rot("R1" + i), ez)
        return qr(n2(x)) and qr(n2(y)) and qr(n2(M(3, 1, [w.x[1], -w.x[0], 0])))
    i = pick(lambda i: i, ok)
    R1, R2 = rot("R1" + i), rot("R2" + i)
    v1 = mul(R1.T, ez)
    for mm, note in ((m, " with a reference vector"), (ex, " with the x axis as reference vector")):
        w = merged(v1, R2, mm)
        b = bounded(None, 1e-6, cross(mul(R2.T, mm), v1))
        r.run("mergeTiltWithYaw", ("v3", "R", "v3"), [v1, R2, mm], w, note, b)
        r.run("mergeRoll1Pitch1WithYaw2", ("R", "R", "v3"), [R1, R2, mm], w, note, b)
    z = mul(R2, v1)
    u = M(3, 1, [z.x[1], -z.x[0] % Pm, 0], p=z.p)
    r.run("getInvariantOrthogonalVector", ("R", "v3"), [R2, v1], u, "", {}, same_=lambda v: par(v, u))
    h = M(3, 1, [R2.at(2, 1), -R2.at(2, 0) % Pm, 0], p=R2.p)
    r.run("getInvariantHorizontalVector", ("R",), [R2], h, "", {}, same_=lambda v: par(v, h))
    mu = u * S2(inv(sqrt(n2(u))), u)
    w = merged_ortho(v1, R2, mu)
    b = bounded(None, 1e-6, u)
    r.run("mergeTiltWithYawAxisAgnostic", ("v3", "R"), [v1, R2], w, "", b)
    r.run("mergeRoll1Pitch1WithYaw2AxisAgnostic", ("R", "R"), [R1, R2], w, "", b)
    # the tilt is the one of the second rotation
    v2 = mul(R2.T, ez)
    r.run("mergeTiltWithYawAxisAgnostic", ("v3", "R"), [v2, R2], R2, " with the tilt of the rotation itself", {})
    r.run("mergeRoll1Pitch1WithYaw2AxisAgnostic", ("R", "R"), [R2, R2], R2, " with the tilt of the rotation itself", {})
    yaw = rz(sc("yaw"))
    r.run("getInvariantHorizontalVector", ("R",), [yaw], h, " of a pure yaw", {}, same_=lambda v: v.x[2] == 0 and any(v.x) if isinstance(v, M) and v.known() and v.r == 3 else None)
    # the reference vector is along the tilt
    v3 = mul(R2.T, m)
    r.run("mergeTiltWithYaw", ("v3", "R", "v3"), [v3, R2, m], None, " when the reference vector is along the tilt", {})


def merged_ortho(v1, R2, m):
    ez = M(3, 1, [0, 0, 1])
    ml = mul(R2.T, m)
    x = cross(ml, v1)
    me = cross(m, ez)
    A = M(3, 3, [e for i in range(3) for e in (me.x[i], m.x[i], ez.x[i])], p=m.p)
    return mul(A, M(3, 3, x.x + ml.x + v1.x, p=x.p | ml.p | v1.p))


def par(v, w):
    """the same direction up to the factor"""
    if not isinstance(v, M) or not v.known() or v.r != 3 or v.k != "m":
        return None
    return not any(cross(v, w).x) and any(v.x)


def yaws(r):
    a, b, c = sc("roll"), sc("pitch"), sc("yaw")
    R = mul(mul(rz(c), ry(b)), rx(a))
    fp.POS.add(trig(b.x[0])[0])
    ang = [(c.x[0],) + trig(c.x[0])]
    r.run("rotationMatrixToYaw", ("R",), [R], c, "", angles=ang)
    v = vec("v", 2)
    fp.POS.add(n2(v))
    r.run("rotationMatrixToYaw", ("R", "v2"), [rz(c), v], c, " of a pure yaw", angles=ang)
    r.run("rotationMatrixToYawAxisAgnostic", ("R",), [rz(c)], c, " of a pure yaw", angles=ang)
    # a general rotation: the angle from the vector to the projection of its image
    Q = rot("R")
    an = sc("angle")

    def general(name, types, args, x, y, axis):
        s = dot(cross(x, y), axis)
        r.run(name, types, args, an, " of a general rotation", angles=[(an.x[0], dot(x, y).x[0], s.x[0])], bounds={})
    ez = M(3, 1, [0, 0, 1])

    def flat(v):
        return stack(M(2, 1, v.x[:2], p=v.p), zero(1, 1))
    v3 = stack(v, zero(1, 1))
    general("rotationMatrixToYaw", ("R", "v2"), [Q, v], v3, flat(mul(Q, v3)), ez)
    h = M(3, 1, [Q.at(2, 1), -Q.at(2, 0) % Pm, 0], p=Q.p)
    general("rotationMatrixToYawAxisAgnostic", ("R",), [Q], h, flat(mul(Q, h)), ez)
    axis = mul(rot("axis"), ez)
    w = vec("w")
    y = mul(Q, w)
    y = y - axis * dot(axis, y)
    general("rotationMatrixToAngle", ("R", "v3", "v3"), [Q, axis, w], w, y, axis)


def two(r):
    ez = M(3, 1, [0, 0, 1])
    x, y = mul(rot("x"), ez), mul(rot("y"), ez)
    w = cross(x, y)
    d = dot(x, y)
    one = S(1)
    R = eye(3) + skew(w) + mul(skew(w), skew(w)) * S2(inv((1 + d.x[0]) % Pm), d)
    b = {(one - d).x[0]: (1e-6, 2), (one + d).x[0]: (1e-6, 2), d.x[0]: (-1 + 1e-6, 1 - 1e-6), n2(w): (1e-6, 1)}
    r.run("twoVectorsToRotationMatrix", ("v3", "v3"), [x, y], R, " of different vectors", b)
    r.run("twoVectorsToRotationMatrix", ("v3", "v3"), [x, x], eye(3), " of a vector and itself", {})


def jacobians(r):
    v = pick(lambda i: vec("d" + i), lambda v: qr(n2(v)))
    b = bounded(None, 1e-6, v)
    n = S2(sqrt(n2(v)), v)
    c, s = trig(n.x[0])
    R = q2R(qexp(v))
    i_ = lambda k: S2(inv(pow(n.x[0], k, Pm)), v)
    J = mul(v, v.T) * (n - S2(s, v)) * i_(3) + eye(3) * S2(s, v) * i_(1) + skew(v) * (S(1) - S2(c, v)) * i_(2)
    d = ("v3", "R", "R")
    for note, x, A, B, bb in ((" far from zero", v, R, J, b), (" at zero", zero(3, 1), eye(3), eye(3), {})):
        outs_only(r, "derivateRotationMultiplicative", d, [x], {1: A, 2: B}, note, bb)
    Q, u = rot("R"), vec("u")
    r.run("derivateRtvMultiplicative", ("R", "v3"), [Q, u], -mul(Q.T, skew(u)))


def outs_only(r, name, types, args, out, note, bounds):
    def setup(dom):
        dom.conv = False
        dom.bounds = bounds
    d = Free(r.prog, "P19", setup)
    for f in d.overloads(name, [types]):
        outs = d._run([St()], f, list(args) + [None] * (len(f["p"]) - len(args)))
        for i, w in out.items():
            p = f["p"][i]
            r.c.compare(d, name, [(s, s.d.get((("arg", i, p["n"]),))) for s, v in outs], [("output " + p["n"], w)], f, note)


def regulated(r):
    v = pick(lambda i: vec("g" + i), lambda v: qr(n2(v)))
    n = S2(sqrt(n2(v)), v)
    for note, rng in ((" below half a turn", (1e-6, 3.14)), (" beyond two turns", (13, 14))):
        b = {n.x[0]: rng, n2(v): (rng[0] ** 2, rng[1] ** 2)}
        far = rng[0] > 7

        w = v * S2((1 - 4 * num(math.pi) * inv(n.x[0])) % Pm, n) if far else v
        for name in ("regulateRotationVector", "regulateOrientationVector"):
            r.run(name, ("v3",), [v], w, note, b)


def checks(r):
    """the signed permutations, half of which are reflections, and multiples and distortions of them"""
    def perm(p, s):
        return [s[i] if p[i] == j else 0 for i in range(3) for j in range(3)]

    def det(m):
        return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6])
    ms = [perm(p, s) for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)]
    cases = [(m, det(m) == 1, "a rotation" if det(m) == 1 else "a reflection") for m in ms]
    cases += [([2 * x for x in ms[0]], False, "a multiple of a rotation"), ([0] * 9, False, "the null matrix"), ([1, 1, 0, 0, 1, 0, 0, 0, 1], False, "a shear")]

    def setup(dom):
        dom.conv = False
        dom.bounds = {}
    d = Free(r.prog, "P19", setup)
    for f in d.overloads("isRotationMatrix", [("R",), ("R", "s")]):
        r.rep.count("functions")
        for m, want, note in cases:
            try:
                got = {v.c for s, v in d._run([St()], f, [M(3, 3, [x % Pm for x in m]), 1e-9][:len(f["p"])])}
            except Stops:
                got = set()
            r.c.faults(d, f, " for " + note, "isRotationMatrix")
            r.rep.count("decided" if len(got) == 1 and None not in got else "undecided")
            if len(got) == 1 and None not in got and bool(*got) != want:
                r.c.bad(d, "isRotationMatrix", note, f, "isRotationMatrix %s %s: %s" % ("accepts" if not want else "refuses", note, m))


def run(prog, rep, tier):
    rep.rule("The result of every conversion, cell for cell, must have the value number of the rotation its argument denotes, and in the degenerate cases the documented one.")
    r = Rot(prog, rep)
    for g in (exponential, logarithm, rpy, tilts, yaws, two, jacobians, regulated, checks):
        fp.POS.clear()
        fp.NANS.clear()
        g(r)
    fp.POS.clear()
    fp.NANS.clear()
    rep.need("decided", 12)
