"""P13: the DCM estimators are the Kalman filter of the linear inverted pendulum with a bias fixed in the robot's frame.

Sequences of calls (constructor, setters in every ordered pair, inputs, updates) are followed through the source down to the Kalman step with
cell-wise value numbering (sa/fp.py), and what the accessors give is compared, cell by cell, with the filter specified here.
  R1  constructor parameters, and each setter before the first input, between an update and the next input, and between input and update
  R2  every ordered pair of setters between two updates
  R3  inputs given again before the update: the former ones are processed first, with their own rotation
  R4  bias limits: the local bias is clamped per axis, its complement is returned to the DCM, and no limit means no clamping
  R5  the overloads taking a yaw angle or a 3d orientation
"""
from ..drive import Drive
from ..fp import M, S, vec, sc, mat, stack, zero, eye, mul, minverse, same, relate, H, c_inv, Pm, trig
from ..interp import Val
from ..extract import AnalysisError
from ..report import parallel
from .models import Case

N = "stateObservation::"


def diag(v):
    n = len(v.x)
    return M(n, n, [v.x[i] if i == j else 0 for i in range(n) for j in range(n)], p=v.p)


def blocks(rows):
    r = [M(row[0].r, sum(b.c for b in row), [b.at(i, j) for i in range(row[0].r) for b in row for j in range(b.c)], p=frozenset().union(*[b.p for b in row])) for row in rows]
    h = sum(b.r for b in r)
    return M(h, r[0].c, [x for b in r for x in b.x], p=frozenset().union(*[b.p for b in r]))


def sq(v):
    return M(v.r, v.c, [x * x % Pm for x in v.x], p=v.p)


class Ref:
    """the specified filter; n is the number of horizontal axes"""

    def __init__(self, n, dt, om, drift, rd, rz, z0, d0, b0, ud, ub):
        self.n, self.dt, self.om, self.drift, self.rd, self.rz, self.z = n, dt, om, drift, rd, rz, z0
        self.d, self.b = d0, b0
        self.P = diag(sq(stack(ud, ub)))
        self.R = eye(n)          # orientation of the robot
        self.turn = eye(n)       # rotation since the previous input
        self.pending = []

    def copy(self):
        r = Ref.__new__(Ref)
        r.__dict__.update(self.__dict__)
        r.pending = list(self.pending)
        return r

    def blocks(self):
        n = self.n
        P = self.P
        b = lambda i, j: M(n, n, [P.at(i * n + a, j * n + c) for a in range(n) for c in range(n)], p=P.p)
        return b

    def setLipmNaturalFrequency(self, x):
        self.om = x

    def setSamplingTime(self, x):
        self.dt = x

    def setBiasDriftPerSecond(self, x):
        self.drift = x

    def setZmpMeasureErrorStd(self, x):
        self.rz = x

    def setDcmMeasureErrorStd(self, x):
        self.rd = x

    def setBias(self, b, u=None):
        self.b = b
        if u is not None:
            z = zero(self.n, self.n)
            self.P = blocks([[self.blocks()(0, 0), z], [z, diag(sq(u))]])

    def setUnbiasedDCM(self, d, u=None):
        self.d = d
        if u is not None:
            z = zero(self.n, self.n)
            self.P = blocks([[diag(sq(u)), z], [z, self.blocks()(1, 1)]])

    def reset(self, dcm, zmp, R, biased, b, ub):
        self.pending = []
        self.z, self.R = zmp, R
        self.d, self.b = (dcm - b if biased else dcm), b
        B, r, z = diag(sq(ub)), eye(self.n) * sq(self.rd), zero(self.n, self.n)
        self.P = blocks([[B + r, -B], [-B, B]]) if biased else blocks([[r, z], [z, B]])

    def inputs(self, y, z, R):
        if self.pending:
            self.update()
        self.pending.append((y, self.z))
        self.z = z
        self.turn = R * self.R.T
        self.R = R

    def update(self):
        n, I, Z = self.n, eye(self.n), zero(self.n, self.n)
        if not self.pending:
            return
        y, u = self.pending.pop()
        od = self.om * self.dt
        A = blocks([[I + I * od, Z], [Z, self.turn]])
        Q = blocks([[I * sq(od * self.rz), Z], [Z, I * sq(self.drift * self.dt)]])
        x = stack(self.d, self.b)
        x = A * x - stack(u * od, zero(n))
        C = blocks([[I, I]])
        Pb = A * (self.P * A.T) + Q
        K = Pb * (C.T * minverse(C * Pb * C.T + I * sq(self.rd)))
        x = x + K * (y - C * x)
        self.P = (eye(2 * n) - K * C) * Pb
        self.d, self.b = M(n, 1, x.x[:n], p=x.p), M(n, 1, x.x[n:], p=x.p)


class Planar:
    cls = N + "LipmDcmEstimator"
    n = 2
    v = staticmethod(lambda s: vec(s, 2))
    order = ("dt", "om", "drift", "rd", "rz", "limit", "z0", "d0", "b0", "ud", "ub")
    setters = [("setLipmNaturalFrequency", "s"), ("setSamplingTime", "s"), ("setBiasDriftPerSecond", "s"), ("setZmpMeasureErrorStd", "s"), ("setDcmMeasureErrorStd", "s"),
               ("setBias", "v"), ("setBias", "vv"), ("setUnbiasedDCM", "v"), ("setUnbiasedDCM", "vv"), ("reset", True), ("reset", False)]


class Line:
    cls = N + "UnidimLipmDcmEstimator"
    n = 1
    v = staticmethod(sc)
    order = ("dt", "om", "drift", "d0", "z0", "b0", "rd", "rz", "ud", "ub")
    setters = Planar.setters


def rotation(s):
    c, d = sc(s).x[0], sc(s + "'").x[0]
    k = c_inv((c * c + d * d) % Pm)
    a, b = (c * c - d * d) * k % Pm, 2 * c * d * k % Pm
    return M(2, 2, [a, (-b) % Pm, b, a], p=frozenset([s]))


class Run:
    def __init__(self, c, kind, limit=None, setup=None):
        self.c, self.kind = c, kind
        self.d = c.drive(kind.cls, setup=setup)
        a = {k: kind.v(k) if k in ("z0", "d0", "b0", "ud", "ub") else sc(k) for k in kind.order}
        a["limit"] = limit if limit is not None else zero(2)
        self.st = self.d.new([a[k] for k in kind.order])
        self.ref = Ref(kind.n, *[a[k] for k in ("dt", "om", "drift", "rd", "rz", "z0", "d0", "b0", "ud", "ub")])
        self.said = []

    def fork(self):
        r = Run.__new__(Run)
        r.c, r.kind, r.d = self.c, self.kind, self.d
        r.st = [s.copy() for s in self.st]
        r.ref = self.ref.copy()
        r.said = list(self.said)
        return r

    def matrix2(self, f):
        return "Matrix2" in self.d.prog.type(f["p"][2])["s"] if self.kind.n == 2 else True

    def do(self, name, sig, tag):
        self.said.append(name if name != "reset" else "reset with a%s measurement" % ("" if sig else "n unbiased"))
        k, d = self.kind, self.d
        if name == "reset":
            y, z, b, ub = k.v("ry" + tag), k.v("rz" + tag), k.v("rb" + tag), k.v("rub" + tag)
            if k.n == 2:
                R = rotation("rR" + tag)
                self.st = d.states(self.st, "resetWithMeasurements", [y, z, R, sig, b, ub], pick=self.matrix2)
            else:
                R = eye(1)
                dr, rd, rz = sc("rdr" + tag), sc("rrd" + tag), sc("rrz" + tag)
                self.st = d.states(self.st, "resetWithInputs", [y, z, sig, dr, rd, rz, b, ub])
                self.ref.drift, self.ref.rd, self.ref.rz = dr, rd, rz
            self.ref.reset(y, z, R, sig, b, ub)
            return
        args = [sc("s" + tag)] if sig == "s" else [k.v("v%d" % i + tag) for i in range(len(sig))]
        self.st = d.states(self.st, name, args)
        getattr(self.ref, name)(*args)

    def inputs(self, tag, R=None):
        k = self.kind
        y, z = k.v("y" + tag), k.v("z" + tag)
        R = (rotation("R" + tag) if k.n == 2 else eye(1)) if R is None else R
        self.said.append("inputs")
        self.st = self.d.states(self.st, "setInputs", [y, z] + ([R] if k.n == 2 else []), pick=self.matrix2)
        self.ref.inputs(y, z, R)

    def update(self):
        self.said.append("update")
        self.st = self.d.states(self.st, "update")
        self.ref.update()

    def check(self, note=""):
        k, r = self.kind, self.ref
        note = note or " (after %s)" % ", ".join(self.said)
        for n, w in [("getUnbiasedDCM", r.d), ("getBias", r.b)] + ([("getLocalBias", r.R.T * r.b)] if k.n == 2 else []):
            self.c.compare(self.d, n, self.d.call(self.st, n), w, self.d.method(n), note)


def singles(c, kind, s):
    for stage in range(3):
        r = Run(c, kind)
        if stage == 0:
            r.do(*s, "a")
            r.check()
        r.inputs("1")
        if stage == 1 and s[0] != "reset":
            r.do(*s, "a")
        r.update()
        r.check()
        if stage == 2:
            r.do(*s, "a")
            r.check()
        r.inputs("2")
        r.update()
        r.check()
        r.inputs("3")
        r.update()
        r.check()


def pairs(c, kind, s):
    base = Run(c, kind)
    base.inputs("1")
    base.update()
    base.do(*s, "a")
    for t in kind.setters:
        r = base.fork()
        r.do(*t, "b")
        r.inputs("2")
        r.update()
        r.check()


def again(c):
    for n in (2, 3):
        for mid in (None, 0, 2, 4, 6):
            r = Run(c, Planar)
            for i in range(n):
                r.inputs("i%d" % i)
                if mid is not None and i == 0:
                    r.do(*Planar.setters[mid], "m")
            r.update()
            r.check()
            r.update()
            r.check()
            r.inputs("last")
            r.update()
            r.check()


def limits(c):
    for lx, ly in ((0, 0), (2, 0), (0, 2), (2, 3), (None, None)):
        for how in ("constructor", "setter", "negative"):
            if how == "negative" and (lx, ly) != (0, 0):
                continue
            L = M(2, 1, [lx, ly]) if lx is not None else vec("limit", 2)
            if how == "negative":
                L = M(2, 1, [(-3) % Pm, (-1) % Pm])
            r = Run(c, Planar, L if how != "setter" else None)
            if how == "setter":
                r.st = r.d.states(r.st, "setBiasLimit", [L])
            r.inputs("1")
            r.update()
            f = r.d.method("update")
            note = " (limits %s, %s, from the %s)" % (lx, ly, how)
            ref = r.ref
            lb = ref.R.T * ref.b
            choice = []
            for i in range(2):
                b = lb.x[i]
                o = [b]
                if how != "negative" and (lx, ly)[i] != 0:
                    o += [L.x[i], (-L.x[i]) % Pm]
                choice.append(o)
            seen = set()
            for s in r.st:
                outs = {n: r.d.call([s], n) for n in ("getUnbiasedDCM", "getBias")}
                dcm, bias = outs["getUnbiasedDCM"][0][1], outs["getBias"][0][1]
                if not (isinstance(dcm, M) and dcm.known() and isinstance(bias, M) and bias.known()):
                    c.rep.count("undecided")
                    continue
                l2 = ref.R.T * bias
                c.rep.count("decided", 2)
                c.rep.count("cases")
                c.rep.sample("update%s" % note)
                for i in range(2):
                    if l2.x[i] not in choice[i]:
                        c.bad(r.d, "bias limits", "bias %s" % "xy"[i], f, "the local bias is neither the estimate nor at the limit along %s%s" % ("xy"[i], note))
                    else:
                        seen.add((i, choice[i].index(l2.x[i])))
                w = ref.d + ref.b - bias
                if not same(dcm, w):
                    c.bad(r.d, "bias limits", "dcm", f, "what is taken from the bias is not given to the DCM%s%s" % (relate(dcm, w), note))
            if r.st:
                for i in range(2):
                    for j, what in enumerate(("the estimate", "the limit", "the opposite of the limit")[:len(choice[i])]):
                        if (i, j) not in seen and not c.rep.cov.get("undecided"):
                            c.bad(r.d, "bias limits", "reach", f, "the local bias never is %s along %s%s" % (what, "xy"[i], note))
            c.faults(r.d, f, note)


def overloads(c):
    def yaw(dom):
        dom.opaque_fns["rotationMatrixToYawAxisAgnostic"] = lambda dom, I, st, node, obj, args, fr: [
            (st, Val(v=M(1, 1, [H("yaw", x.x)], p=x.p) if isinstance(x := I.rv(st, args[0], node["a"][0], fr).v, M) and x.known() else None, node=node))]
    for kind in ("yaw", "orientation"):
        for what in ("setInputs", "resetWithMeasurements"):
            a, b = Run(c, Planar, setup=yaw), Run(c, Planar, setup=yaw)
            arg = sc("yaw") if kind == "yaw" else mat("O", 3, 3)
            ang = arg if kind == "yaw" else M(1, 1, [H("yaw", arg.x)], p=arg.p)
            co, si = trig(ang.x[0])
            R = M(2, 2, [co, (-si) % Pm, si, co], p=ang.p)
            y, z, bb, ub = vec("y", 2), vec("z", 2), vec("bb", 2), vec("ub", 2)
            word = "double" if kind == "yaw" else "Matrix3"
            extra = [True, bb, ub] if what != "setInputs" else []
            a.st = a.d.states(a.st, what, [y, z, arg] + extra, pick=lambda f: word in a.d.prog.type(f["p"][2])["s"])
            if extra:
                a.ref.reset(y, z, R, True, bb, ub)
            else:
                a.ref.inputs(y, z, R)
                a.update()
            a.check(" (%s with a %s)" % (what, kind))
            a.inputs("n")
            a.update()
            a.check(" (after %s with a %s)" % (what, kind))


def work(rep, task):
    prog, kind, what, arg = task
    c = Case(_prog, rep, "P13")
    k = {"p": Planar, "l": Line}.get(kind)
    {"singles": lambda: singles(c, k, k.setters[arg]), "pairs": lambda: pairs(c, k, k.setters[arg]), "again": lambda: again(c),
     "limits": lambda: limits(c), "overloads": lambda: overloads(c)}[what]()


def run(prog, rep, tier):
    global _prog
    _prog = prog
    tasks = [(None, "p", w, None) for w in ("again", "limits", "overloads")]
    tasks += [(None, k, w, i) for k in "pl" for w in ("singles", "pairs") for i in range(len(Planar.setters))]
    parallel(rep, tasks, work)
    rep.rule("Every cell given by the accessors after a sequence of calls must have the value number of the specified filter.")
    rep.need("decided", 200)
