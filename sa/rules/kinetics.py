"""P14-P17: the kinetics observer.

Sequences of calls on the observer are followed through the source (down to the rigid-body operations and the Kalman step) with cell-wise
value numbering (sa/fp.py), and what the accessors give is compared, cell by cell, with the observer specified here.
  P14  every operation on covariances changes the block of the component it names, its cross terms, and nothing else
  P15  contacts and sensors: what was given since the last estimation, and only that, is the measurement, with its own covariance
  P16  motion model, sensor model, and the estimation step they give
  P17  state arithmetics; every setter and getter of the state reads and writes the same components
"""
from ..drive import Drive, Stops
from ..fp import M, S, sym, vec, sc, mat, stack, zero, eye, mul, minverse, same, relate, quat, q2R, qmul, qexp, qconj, Rlog, cross, skew, unknown, H, num, Pm, c_inv
from ..interp import Val
from ..extract import AnalysisError
from ..report import parallel
from .models import Case, gravity, noise, noisyv

N = "stateObservation::"
CLS = N + "KineticsObserver"
EKF = N + "ExtendedKalmanFilter"
ITEMS = dict(position="p", orientation="R", linVel="v", angVel="w", linAcc="a", angAcc="dw")
POSE = ("position", "orientation")
VEL = POSE + ("linVel", "angVel")
ACC = VEL + ("linAcc",)
ALL = ACC + ("angAcc",)


# ---- kinematics
class K:
    """kinematics of a frame; q a quaternion"""

    def __init__(self, **k):
        self.k = k

    def __getattr__(self, n):
        return self.__dict__["k"][n]

    def has(self, n):
        return n in self.k

    @property
    def R(self):
        return q2R(self.q)


def kin(name, items):
    d = {}
    for i in items:
        if i == "orientation":
            d["q"] = quat(name + "R")
        else:
            d[ITEMS[i]] = vec(name + ITEMS[i])
    return K(**d)


def put(k):
    """argument of the analysed call: a Kinematics object"""
    def f(st, L):
        for it, s in ITEMS.items():
            if it == "orientation":
                on = k.has("q")
                for r in ("m_", "q_"):
                    st.c[L + (it, r, "isSet_", "b_")] = on and r == "q_"
                st.d[L + (it, "q_", "v_")] = k.q if on else unknown(4, 1, "q")
            else:
                st.c[L + (it, "isSet_", "b_")] = k.has(s)
                st.d[L + (it, "v_")] = k.k[s] if k.has(s) else unknown(3)
    return f


def get(s, L, it):
    """(set?, value) of a quantity of a Kinematics object"""
    if it != "orientation":
        return s.c.get(L + (it, "isSet_", "b_")), s.d.get(L + (it, "v_"))
    for r in ("q_", "m_"):
        if s.c.get(L + (it, r, "isSet_", "b_")):
            return True, s.d.get(L + (it, r, "v_"))
    return s.c.get(L + (it, "m_", "isSet_", "b_")), None


def prod(a, b):
    R = a.R
    Rp = R * b.p
    o = dict(p=a.p + Rp, q=qmul(a.q, b.q))
    if a.has("v") and b.has("v"):
        Rv = R * b.v
        o["v"] = a.v + cross(a.w, Rp) + Rv
        o["w"] = a.w + R * b.w
        if a.has("a") and b.has("a"):
            o["a"] = a.a + cross(a.dw, Rp) + cross(a.w, cross(a.w, Rp)) + cross(a.w, Rv) * 2 + R * b.a
    return K(**o)


# ---- state layout
class Lay:
    def __init__(self, nc, ni):
        self.nc, self.ni = nc, ni
        self.b, self.bt = 13, 12
        self.w, self.wt = 13 + 3 * ni, 12 + 3 * ni
        self.c, self.ct = self.w + 6, self.wt + 6
        self.n, self.nt = self.c + 13 * nc, self.ct + 12 * nc

    def parts(self):
        """(name, index, size, tangent index, tangent size)"""
        o = [("kinematics", 0, 13, 0, 12)]
        o += [("gyrometer bias %d" % i, self.b + 3 * i, 3, self.bt + 3 * i, 3) for i in range(self.ni)]
        o += [("unmodeled wrench", self.w, 6, self.wt, 6)]
        o += [("contact %d" % i, self.c + 13 * i, 13, self.ct + 12 * i, 12) for i in range(self.nc)]
        return o


def setblock(P, B, i):
    n = B.r
    x = list(P.x)
    for a in range(P.r):
        for b in range(P.c):
            ia, ib = i <= a < i + n, i <= b < i + n
            if ia and ib:
                x[a * P.c + b] = B.at(a - i, b - i)
            elif ia or ib:
                x[a * P.c + b] = 0
    return M(P.r, P.c, x, p=P.p | B.p)


def setseg(v, w, i):
    x = list(v.x)
    x[i:i + w.r] = w.x
    return M(v.r, 1, x, p=v.p | w.p)


def blk(name, n):
    return sym(name, n)


def qv(q):
    return M(4, 1, q.x, p=q.p)


def seg_q(v, i):
    return M(4, 1, v.x[i:i + 4], "q", v.p)


def state(lay, tag, contacts=None):
    """a state made of unknown values, with unit quaternions"""
    b = [vec(tag + "p"), qv(quat(tag + "q")), vec(tag + "v"), vec(tag + "w")]
    b += [vec(tag + "b%d" % i) for i in range(lay.ni)] + [vec(tag + "F"), vec(tag + "T")]
    for i in range(lay.nc):
        b += [vec(tag + "cp%d" % i), qv(quat(tag + "cq%d" % i)), vec(tag + "cf%d" % i), vec(tag + "ct%d" % i)]
    return stack(*b)


# ---- the observer
class Ref:
    def __init__(self, lay, g):
        self.lay, self.g = lay, g
        self.m = self.dt = None
        self.addF, self.addT = zero(3), zero(3)
        self.bias, self.unmod = True, False
        self.com = self.comd = self.comdd = self.sig = self.sigd = zero(3)
        self.I, self.Id = eye(3), zero(3, 3)
        self.contacts = {}      # number -> dict(Kp, Kd, Ap, Ad, local)
        self.imus = {}          # number -> dict(kin, y, ca, cg), those measured since the last estimation
        self.wrenches = {}      # number -> (wrench, covariance), same
        self.pose = None        # (kinematics, covariance), same
        self.noise_x = self.noise_y = False

    def copy(self):
        r = Ref.__new__(Ref)
        r.__dict__.update(self.__dict__)
        r.contacts, r.imus, r.wrenches = dict(self.contacts), dict(self.imus), dict(self.wrenches)
        return r

    def kine(self, x):
        return K(p=x.seg(0, 3), q=seg_q(x, 3), v=x.seg(7, 3), w=x.seg(10, 3))

    def accelerations(self, x):
        l, k = self.lay, self.kine(x)
        f, t = self.addF + x.seg(l.w, 3), self.addT + x.seg(l.w + 3, 3)
        for i, c in sorted(self.contacts.items()):
            b = l.c + 13 * i
            lf = c["local"].R * x.seg(b + 7, 3)
            f = f + lf
            t = t + c["local"].R * x.seg(b + 10, 3) + cross(c["local"].p, lf)
        R = k.R
        w = R.T * k.w
        co = cross(w, self.comd) * 2 + cross(w, cross(w, self.com))
        im = M(1, 1, [c_inv(self.m.x[0])], p=self.m.p)
        J = self.I + skew(self.com) * skew(self.com) * self.m
        al = minverse(J) * (t - self.Id * w - self.sigd - cross(w, self.I * w + self.sig) - cross(self.com, f - (self.comdd + co) * self.m))
        lin = R * (f * im - self.comdd - co + cross(self.com, al)) - self.g
        return K(a=lin, dw=R * al, **k.k)

    def f(self, x, flip=frozenset()):
        l, k, dt = self.lay, self.accelerations(x), self.dt
        h = dt * dt * 0.5
        k = K(p=k.p + k.v * dt + k.a * h, q=qmul(qexp(k.w * dt + k.dw * h), k.q), v=k.v + k.a * dt, w=k.w + k.dw * dt)
        y = setseg(x, stack(k.p, qv(k.q), k.v, k.w), 0)
        for i, c in sorted(self.contacts.items()):
            b = l.c + 13 * i
            g = prod(k, c["local"])
            Rt = g.R.T
            F = Rt * (c["Kp"] * (x.seg(b, 3) - g.p) - c["Kd"] * g.v)
            e = qmul(g.q, qconj(seg_q(x, b + 3)))
            e = M(3, 1, e.x[:3], p=e.p)
            if i in flip:
                e = -e
            T = Rt * (-(c["Ap"] * e) * 0.5 - c["Ad"] * g.w)
            y = setseg(y, stack(F, T), b + 7)
        return noisyv(y) if self.noise_x else y

    def parts(self):
        """(name, size) of the measurement"""
        return [("IMU %d" % i, 6) for i in sorted(self.imus)] + [("wrench %d" % i, 6) for i in sorted(self.wrenches)] + ([("pose", 7)] if self.pose else [])

    def y(self):
        b = [self.imus[i]["y"] for i in sorted(self.imus)] + [self.wrenches[i][0] for i in sorted(self.wrenches)]
        if self.pose:
            b += [self.pose[0].p, qv(self.pose[0].q)]
        return stack(*b) if b else zero(0)

    def R(self):
        b = [m for i in sorted(self.imus) for m in (self.imus[i]["ca"], self.imus[i]["cg"])] + [self.wrenches[i][1] for i in sorted(self.wrenches)]
        if self.pose:
            b.append(self.pose[1])
        n = sum(m.r for m in b)
        P, i = zero(n, n), 0
        for m in b:
            P = setblock(P, m, i)
            i += m.r
        return P

    def h(self, x):
        k = self.accelerations(x)
        b = []
        for i in sorted(self.imus):
            g = prod(k, self.imus[i]["kin"])
            w = g.R.T * g.w
            if self.bias:
                w = w + x.seg(self.lay.b + 3 * i, 3)
            b += [g.R.T * (g.a + self.g), w]
        for i in sorted(self.wrenches):
            b.append(x.seg(self.lay.c + 13 * i + 7, 6))
        if self.pose:
            b += [k.p, qv(k.q)]
        y = stack(*b) if b else zero(0)
        return noisyv(y) if self.noise_y else y

    def plus(self, x, d):
        l = self.lay

        def ori(y, i, j):
            return setseg(y, qv(qmul(qexp(d.seg(j, 3)), seg_q(x, i))), i)
        y = setseg(x, x.seg(0, 3) + d.seg(0, 3), 0)
        y = ori(y, 3, 3)
        y = setseg(y, x.seg(7, 6) + d.seg(6, 6), 7)
        if self.bias:
            y = setseg(y, x.seg(l.b, 3 * l.ni) + d.seg(l.bt, 3 * l.ni), l.b)
        if self.unmod:
            y = setseg(y, x.seg(l.w, 6) + d.seg(l.wt, 6), l.w)
        for i in self.contacts:
            b, t = l.c + 13 * i, l.ct + 12 * i
            y = setseg(y, x.seg(b, 3) + d.seg(t, 3), b)
            y = ori(y, b + 3, t + 3)
            y = setseg(y, x.seg(b + 7, 6) + d.seg(t + 6, 6), b + 7)
        return y

    def minus(self, x, z, d=None):
        """d: what the components that are not in use get"""
        l = self.lay
        d = d if d is not None else zero(l.nt)

        def ori(y, i, j):
            return setseg(y, Rlog(q2R(seg_q(x, i)) * q2R(seg_q(z, i)).T), j)
        y = setseg(d, x.seg(0, 3) - z.seg(0, 3), 0)
        y = ori(y, 3, 3)
        y = setseg(y, x.seg(7, 6) - z.seg(7, 6), 6)
        if self.bias:
            y = setseg(y, x.seg(l.b, 3 * l.ni) - z.seg(l.b, 3 * l.ni), l.bt)
        if self.unmod:
            y = setseg(y, x.seg(l.w, 6) - z.seg(l.w, 6), l.wt)
        for i in self.contacts:
            b, t = l.c + 13 * i, l.ct + 12 * i
            y = setseg(y, x.seg(b, 3) - z.seg(b, 3), t)
            y = ori(y, b + 3, t + 3)
            y = setseg(y, x.seg(b + 7, 6) - z.seg(b + 7, 6), t + 6)
        return y

    def used(self):
        """tangent indices of the components in use"""
        l = self.lay
        o = list(range(12))
        if self.bias:
            o += range(l.bt, l.bt + 3 * l.ni)
        if self.unmod:
            o += range(l.wt, l.wt + 6)
        for i in self.contacts:
            o += range(l.ct + 12 * i, l.ct + 12 * i + 12)
        return o

    def yminus(self, a, b):
        if not self.pose:
            return a - b
        n = a.r - 7
        return stack(a.seg(0, n + 3) - b.seg(0, n + 3), Rlog(q2R(seg_q(a, n + 3)) * q2R(seg_q(b, n + 3)).T))


class Run:
    def __init__(self, c, nc, ni, setup=None):
        self.c = c
        self.d = c.drive(CLS, setup=setup)
        self.lay = Lay(nc, ni)
        self.st = self.d.new([nc, ni])
        self.ref = Ref(self.lay, gravity(self.d))
        self.said = []
        self.clean("constructor")

    def fork(self):
        r = Run.__new__(Run)
        r.__dict__.update(self.__dict__)
        r.st, r.ref, r.said = [s.copy() for s in self.st], self.ref.copy(), list(self.said)
        return r

    def note(self):
        return " (after %s)" % ", ".join(self.said) if self.said else " (just constructed)"

    def clean(self, what):
        f = self.d.method("update", 0)
        self.c.faults(self.d, f, self.note(), what)

    def do(self, name, args=(), say=None, n=None, pick=None):
        self.said.append(say or name)
        try:
            self.st = self.d.states(self.st, name, list(args), n=n, pick=pick)
        finally:
            self.clean(name)

    def of(self, name, args=(), n=None, pick=None):
        o = self.d.call(self.st, name, list(args), n=n, pick=pick)
        if not o:
            stop = Stops(CLS, name if isinstance(name, str) else name["q"], self.d.fails)
            self.clean(name)
            if stop.items:
                raise stop
            raise AnalysisError("%s: no path through %s" % (self.c.tag, name))
        return o

    def tried(self, f, *a):
        """False: the sequence ended in a failing assertion, which is reported"""
        try:
            f(*a)
        except Stops:
            return False
        return True

    def filter(self, name):
        """what an accessor of the Kalman filter gives"""
        f = self.d.sub(EKF, name, 0)
        out = []
        for s, L in self.d.obj(self.st, "getEKF", [], pick=lambda f: not f.get("const")):
            out += self.d.call_on(s, L, f)
        return out

    def check(self, name, want, args=(), outs=None):
        f = self.d.method(name) if outs is None else self.d.sub(EKF, name, 0)
        self.c.compare(self.d, name, self.of(name, args) if outs is None else outs, want, f, self.note())


    def add(self, i, cov=True, own=True, auto=False, say="addContact"):
        """adds contact i, with or without its own covariances, its own stiffness and damping, its number given or not"""
        d = self.d
        ks = [mat("%s%d" % (n, i), 3, 3) for n in ("Kp", "Kd", "Ap", "Ad")]
        df = [eye(3) * const(d, n) for n in ("linearStiffnessDefault", "linearDampingDefault", "angularStiffnessDefault", "angularDampingDefault")]
        args = [put(kin("pose%d" % i, POSE))] + ([blk("ciP%d" % i, 12), blk("ciQ%d" % i, 12)] if cov else []) + [-1 if auto else i]
        own = (own,) * 4 if isinstance(own, bool) else own
        args += [k if o else zero(3, 3) for k, o in zip(ks, own)]
        self.do("addContact", args, say=say, n=len(args))
        K4 = [k if o else f for k, f, o in zip(ks, df, own)]
        self.ref.contacts[i] = dict(Kp=K4[0], Kd=K4[1], Ap=K4[2], Ad=K4[3], local=None)

    def param(self, name, i):
        """type of parameter i"""
        return lambda f: name in self.d.prog.type(f["p"][i])["s"]


def names(lay, v, tangent=False):
    """[(component, cells)] of a state or tangent vector"""
    return [(n, M(nt if tangent else ns, 1, v.x[(it if tangent else i):(it + nt if tangent else i + ns)], p=v.p)) for n, i, ns, it, nt in lay.parts()]


# ---- P14
def const(d, name):
    I = d.interp()
    v = I.dom.glob(I, CLS + "::" + name)
    if not isinstance(v, M) or not v.known():
        raise AnalysisError("P14: value of %s not found" % name)
    return v


def dblocks(d, *cs):
    n = sum(k for _, k in cs)
    P, i = zero(n, n), 0
    for c, k in cs:
        P = setblock(P, eye(k) * const(d, c), i)
        i += k
    return P


class Cov:
    """expected covariances"""

    def __init__(self, r):
        d, l = r.d, r.lay
        self.kin = dblocks(d, ("statePoseInitVarianceDefault", 3), ("stateOriInitVarianceDefault", 3), ("stateLinVelInitVarianceDefault", 3), ("stateAngVelInitVarianceDefault", 3))
        self.kinQ = dblocks(d, ("statePoseProcessVarianceDefault", 3), ("stateOriProcessVarianceDefault", 3), ("stateLinVelProcessVarianceDefault", 3), ("stateAngVelProcessVarianceDefault", 3))
        self.b, self.bQ = dblocks(d, ("gyroBiasInitVarianceDefault", 3)), dblocks(d, ("gyroBiasProcessVarianceDefault", 3))
        self.u, self.uQ = dblocks(d, ("unmodeledWrenchInitVarianceDefault", 6)), dblocks(d, ("unmodeledWrenchProcessVarianceDefault", 6))
        self.cQ = dblocks(d, ("contactPositionProcessVarianceDefault", 3), ("contactOrientationProcessVarianceDefault", 3), ("contactForceProcessVarianceDefault", 3), ("contactTorqueProcessVarianceDefault", 3))
        self.c = dblocks(d, ("contactPositionProcessVarianceDefault", 3), ("contactOrientationProcessVarianceDefault", 3), ("contactForceInitVarianceDefault", 3), ("contactTorqueInitVarianceDefault", 3))
        self.l = l
        self.P, self.Q = zero(l.nt, l.nt), zero(l.nt, l.nt)
        self.reset("P")
        self.reset("Q")

    def at(self, which, part, B):
        i = {n: t for n, _, _, t, _ in self.l.parts()}[part]
        setattr(self, which, setblock(getattr(self, which), B, i))

    def reset(self, which, contacts=()):
        q = "Q" if which == "Q" else ""
        self.at(which, "kinematics", getattr(self, "kin" + q))
        for i in range(self.l.ni):
            self.at(which, "gyrometer bias %d" % i, getattr(self, "b" + q))
        self.at(which, "unmodeled wrench", getattr(self, "u" + q))
        for i in contacts:
            self.at(which, "contact %d" % i, getattr(self, "c" + q))


def cov_check(r, e):
    """compares both covariances, block by block"""
    l = r.lay
    for which, outs, name in (("P", r.of("getStateCovarianceMat"), "state covariance"), ("Q", r.filter("getProcessCovariance"), "process noise covariance")):
        want = getattr(e, which)
        r.c.rep.count("cases")
        for s, v in outs:
            if not isinstance(v, M):
                r.c.rep.count("undecided")
                continue
            if (v.r, v.c) != (want.r, want.c):
                r.c.bad(r.d, name, "size", r.d.method("getStateCovarianceMat"), "the %s is %dx%d instead of %dx%d%s" % (name, v.r, v.c, want.r, want.c, r.note()))
                continue
            ps = l.parts()
            for n1, _, _, i, h in ps:
                for n2, _, _, j, w in ps:
                    if j < i:
                        continue
                    for a, b, x, y in ((i, j, h, w), (j, i, w, h)):
                        k = same(v.sub(a, b, x, y), want.sub(a, b, x, y))
                        if k is None:
                            r.c.rep.count("undecided")
                        else:
                            r.c.rep.count("decided")
                            if not k:
                                last = r.said[-1].split(" ")[0] if r.said else CLS.rsplit("::", 1)[-1]
                                f = r.d.method(last) if r.said else r.d.method("update", 0)
                                r.c.bad(r.d, last, "%s of %s" % (name, n1 if n1 == n2 else n1 + " and " + n2), f,
                                        "the %s of %s is not what it should be%s" % (name, n1 if n1 == n2 else "%s with %s" % (n1, n2), r.note()))
        r.c.rep.sample("%s%s" % (name, r.note()))


def cov_base(c):
    r = Run(c, 2, 2)
    e = Cov(r)
    cov_check(r, e)
    r.add(0, say="addContact with covariances")
    e.at("P", "contact 0", blk("ciP0", 12))
    e.at("Q", "contact 0", blk("ciQ0", 12))
    cov_check(r, e)
    r.add(1, cov=False, own=False, say="addContact with default covariances")
    e.at("P", "contact 1", e.c)
    e.at("Q", "contact 1", e.cQ)
    cov_check(r, e)
    return r, e


def cov_ops(c, part):
    r0, e0 = cov_base(c)
    l = r0.lay
    e0.P, e0.Q = blk("anyP", l.nt), blk("anyQ", l.nt)
    r0.do("setStateCovarianceMat", [e0.P])
    r0.do("setProcessNoiseCovarianceMat", [e0.Q])
    r0.said = []
    cov_check(r0, e0)
    import copy
    B3, B6, B12 = blk("B", 3), blk("B", 6), blk("B", 12)
    ops = []

    def op(name, args, eff, say=None, n=None, pick=None):
        ops.append((name, args, eff, say, n, pick))
    at = lambda w, p, B: (lambda e: e.at(w, p, B))
    op("setKinematicsStateCovariance", [B12], at("P", "kinematics", B12))
    op("setKinematicsProcessCovariance", [B12], at("Q", "kinematics", B12))
    op("setUnmodeledWrenchStateCovMat", [B6], at("P", "unmodeled wrench", B6))
    op("setUnmodeledWrenchProcessCovMat", [B6], at("Q", "unmodeled wrench", B6))
    for i in range(2):
        op("setGyroBiasStateCovariance", [B3, i], at("P", "gyrometer bias %d" % i, B3))
        op("setGyroBiasProcessCovariance", [B3, i], at("Q", "gyrometer bias %d" % i, B3))
        op("setContactStateCovMat", [i, B12], at("P", "contact %d" % i, B12))
        op("setContactProcessCovMat", [i, B12], at("Q", "contact %d" % i, B12))
        op("resetStateGyroBiasCovMat", [i], lambda e, i=i: e.at("P", "gyrometer bias %d" % i, e.b))
        op("resetProcessGyroBiasCovMat", [i], lambda e, i=i: e.at("Q", "gyrometer bias %d" % i, e.bQ))
        op("resetStateContactCovMat", [i], lambda e, i=i: e.at("P", "contact %d" % i, e.c))
        op("resetProcessContactCovMat", [i], lambda e, i=i: e.at("Q", "contact %d" % i, e.cQ))
        for rc in (True, False):
            op("setGyroBias", [vec("bias"), i, rc], lambda e, i=i, rc=rc: e.at("P", "gyrometer bias %d" % i, e.b) if rc else None, "setGyroBias with%s resetting the covariance" % ("" if rc else "out"))
    op("resetStateKinematicsCovMat", [], lambda e: e.at("P", "kinematics", e.kin))
    op("resetProcessKinematicsCovMat", [], lambda e: e.at("Q", "kinematics", e.kinQ))
    op("resetStateUnmodeledWrenchCovMat", [], lambda e: e.at("P", "unmodeled wrench", e.u))
    op("resetProcessUnmodeledWrenchCovMat", [], lambda e: e.at("Q", "unmodeled wrench", e.uQ))

    def contacts(e, w):
        for i in (0, 1):
            e.at(w, "contact %d" % i, e.c if w == "P" else e.cQ)
    op("resetStateContactsCovMat", [], lambda e: contacts(e, "P"))
    op("resetProcessContactsCovMat", [], lambda e: contacts(e, "Q"))
    op("resetStateCovarianceMat", [], lambda e: e.reset("P", (0, 1)))
    op("resetProcessCovarianceMat", [], lambda e: e.reset("Q", (0, 1)))

    for rc in (True, False):
        op("setStateUnmodeledWrench", [vec("wrench", 6), rc], lambda e, rc=rc: e.at("P", "unmodeled wrench", e.u) if rc else None, "setStateUnmodeledWrench with%s resetting the covariance" % ("" if rc else "out"))
        op("setStateVector", [state(l, "given"), rc], lambda e, rc=rc: e.reset("P", (0, 1)) if rc else None, "setStateVector with%s resetting the covariance" % ("" if rc else "out"))
        for rf in (True, False):
            def eff(e, rc=rc, rf=rf):
                if rc:
                    e.at("P", "kinematics", e.kin)
                    if rf:
                        contacts(e, "P")
            op("setStateKinematics", [put(kin("given", VEL)), rf, rc], eff, "setStateKinematics with%s resetting the covariance, with%s resetting the forces" % ("" if rc else "out", "" if rf else "out"))
    # operations that leave the covariances
    for name, args in (("setKinematicsInitCovarianceDefault", [B12]), ("setGyroBiasInitCovarianceDefault", [B3]), ("setUnmodeledWrenchInitCovMatDefault", [B6]), ("setContactInitCovMatDefault", [B12]),
                       ("setMass", [sc("mass")]), ("setSamplingTime", [sc("dt")]), ("setAdditionalWrench", [vec("f"), vec("t")]), ("resetSensorsDefaultCovMat", []), ("resetInputs", []),
                       ("setWithGyroBias", [False]), ("setWithUnmodeledWrench", [True]), ("removeContact", [1]), ("setIMUDefaultCovarianceMatrix", [B3, B3]),
                       ("setFiniteDifferenceStep", [vec("step", l.nt)])):
        op(name, args, lambda e: None)
    for k, (name, args, eff, say, n, pick) in enumerate(ops):
        if k % 8 != part:
            continue
        r, e = r0.fork(), copy.copy(e0)
        if not r.tried(r.do, name, args, say, n, pick):
            continue
        eff(e)
        cov_check(r, e)
    # the defaults given are the ones used by the resets, at any time after
    if part == 0:
        import itertools
        r, e = r0.fork(), copy.copy(e0)
        e.kin, e.b, e.u, e.c = blk("ik", 12), blk("ib", 3), blk("iu", 6), blk("ic", 12)
        r.do("setKinematicsInitCovarianceDefault", [e.kin])
        r.do("setGyroBiasInitCovarianceDefault", [e.b])
        r.do("setUnmodeledWrenchInitCovMatDefault", [e.u])
        r.do("setContactInitCovMatDefault", [e.c])
        cov_check(r, e)
        for name, args, eff, say, n, pick in ops:
            if name.startswith("resetState") or name in ("setStateKinematics", "setGyroBias", "setStateUnmodeledWrench", "setStateVector"):
                r2, e2 = r.fork(), copy.copy(e)
                r2.do(name, args, say, n, pick)
                eff(e2)
                cov_check(r2, e2)
        # ... also while sensors are being given
        r.do("setIMU", [vec("acc"), vec("gyr"), put(kin("imu", ACC)), 1], n=4)
        r.do("resetStateCovarianceMat")
        e.reset("P", (0, 1))
        cov_check(r, e)
        if not r.tried(r.do, "removeContact", [0]):
            return
        r.do("setStateCovarianceMat", [e0.P])
        e.P = e0.P
        r.do("resetStateCovarianceMat")
        e.reset("P", (1,))
        cov_check(r, e)


def run_cov(prog, rep, tier):
    def work(rep, i):
        cov_ops(Case(prog, rep, "P14"), i)
    rep.rule("Every block of both covariance matrices must have, after every operation, the value number the operation gives it, or the one it had.")
    parallel(rep, list(range(8)), work)
    rep.need("decided", 500)


# ---- sequences of estimations
def follow(old, new, dt, items):
    """the kinematics of a frame, given anew after dt: what is not given comes from finite differences, or is zero the first time"""
    k = dict(new.k)
    i = None if old is None else M(1, 1, [c_inv(dt.x[0])], p=dt.p)
    velx = not new.has("v")
    for n, f in (("v", lambda: (new.p - old.p) * i), ("w", lambda: Rlog(new.R * old.R.T) * i)):
        if n not in k:
            k[n] = zero(3) if old is None else f()
    if "a" in items and "a" not in k:
        k["a"] = zero(3) if old is None else (k["v"] - old.v) * i
    return K(**k)


class Seq(Run):
    """iterations: contacts and sensors given, then an estimation"""

    def __init__(self, c, nc, ni, watch, jacobians=False):
        """jacobians: the finite differences are followed, instead of giving unknown matrices"""
        self.it = 0
        self.watch = watch
        self.pending = False
        self.ik = {}
        self.ck = {}
        box = self.box = [self]

        def setup(dom):
            noise(dom)

            def A(dom, I, st, node, obj, args, fr):
                me = box[0]
                return [(st, Val(v=mat("A%d" % me.it, me.lay.nt, me.lay.nt), node=node))]

            def C(dom, I, st, node, obj, args, fr):
                me = box[0]
                return [(st, Val(v=mat("C%d" % me.it, sum(6 if n == "pose" else k for n, k in me.ref.parts()), me.lay.nt), node=node))]
            if jacobians:
                return
            dom.opaque_fns["getAMatrixFD"] = A
            dom.opaque_fns["getCMatrixFD"] = C
        Run.__init__(self, c, nc, ni, setup)
        self.n = 0
        self.ref.dt = sc("dt")
        self.ref.m = sc("m")
        self.imucov = dblocks(self.d, ("acceleroVarianceDefault", 3)), dblocks(self.d, ("gyroVarianceDefault", 3))
        self.wcov = dblocks(self.d, ("forceSensorVarianceDefault", 3), ("torqueSensorVarianceDefault", 3))
        self.pcov = dblocks(self.d, ("positionSensorVarianceDefault", 3), ("orientationSensorVarianceDefault", 3))
        self.do("setSamplingTime", [self.ref.dt])
        self.do("setMass", [self.ref.m])
        self.said = []

    def fork(self):
        r = Run.fork(self)
        r.__class__ = type(self)
        r.ik, r.ck = dict(self.ik), dict(self.ck)
        return r

    def tag(self):
        self.n += 1
        return "i%d" % self.n

    def begin(self):
        if not self.pending:
            self.pending = True
            self.it += 1
            r = self.ref
            r.imus, r.wrenches, r.pose = {}, {}, None

    def imu(self, i, own=True, items=ALL[:5], auto=False):
        self.begin()
        t = self.tag()
        k, y, w = kin(t, items), vec(t + "acc"), vec(t + "gyr")
        ca, cg = (blk(t + "ca", 3), blk(t + "cg", 3)) if own else self.imucov
        args = [y, w] + ([ca, cg] if own else []) + [put(k), -1 if auto else i]
        self.said.append("setIMU for IMU %d%s" % (i, "" if own else " with default covariances"))
        o = self.of("setIMU", args)
        self.clean("setIMU")
        for s, v in o:
            if isinstance(v, M) and v.known() and not v.p:
                self.c.rep.count("decided")
                if same(v, S(i)) is False:
                    self.c.bad(self.d, "setIMU", "number", self.d.method("setIMU"), "the number given to the IMU is not %d%s" % (i, self.note()))
        self.st = [s for s, v in o]
        self.tidy()
        old = self.ik.get(i)
        g = follow(old[0] if old else None, k, self.ref.dt * (self.it - old[1]) if old else None, "a")
        self.ik[i] = (g, self.it)
        self.ref.imus[i] = dict(kin=g, y=stack(y, w), ca=ca, cg=cg)

    def tidy(self):
        for s in self.st:
            for d in (s.c, s.d):
                for k in [k for k in d if k and isinstance(k[0], tuple) and k[0][0] in ("arg", "tmp", "v")]:
                    del d[k]

    def contact(self, i, sensor=True, own=None, items=VEL):
        self.begin()
        t = self.tag()
        k = kin(t, items)
        if sensor:
            w = vec(t + "wrench", 6)
            c = blk(t + "cov", 6) if own else self.wcov
            self.do("updateContactWithWrenchSensor", [w] + ([c] if own else []) + [put(k), i], say="updateContactWithWrenchSensor for contact %d" % i, n=4 if own else 3)
            self.ref.wrenches[i] = (w, c)
        else:
            self.do("updateContactWithNoSensor", [put(k), i], say="updateContactWithNoSensor for contact %d" % i)
            self.ref.wrenches.pop(i, None)
        old = self.ck.get(i)
        g = follow(old[0] if old else None, k, self.ref.dt, "")
        self.ck[i] = (g, self.it)
        self.ref.contacts[i] = dict(self.ref.contacts[i], local=self.ck[i][0])

    def pose(self, own=True):
        self.begin()
        t = self.tag()
        k = kin(t, POSE)
        c = blk(t + "cov", 6) if own else self.pcov
        self.do("setAbsolutePoseSensor", [put(k)] + ([c] if own else []))
        self.ref.pose = (k, c)

    def drop(self, i):
        self.do("removeContact", [i], say="removeContact of contact %d" % i)
        for d in (self.ref.contacts, self.ref.wrenches, self.ck):
            d.pop(i, None)

    def estimate(self):
        self.box[0] = self
        self.do("update")
        self.pending = False
        self.said = self.said[-14:]

    def read(self):
        """the measurement and the contacts, as the accessors give them"""
        c, d, r = self.c, self.d, self.ref
        y = r.y() if self.pending else zero(0)
        self.check("getMeasurementSize", S(y.r))
        if y.r:
            self.check("getMeasurementVector", y)
        self.check("getNumberOfContacts", S(len(r.contacts)))
        f = d.method("getListOfContacts")
        for s, L in d.obj(self.st, "getListOfContacts"):
            n = s.c.get(L + ("#size",)) if L else None
            if n is None:
                c.rep.count("undecided")
                continue
            c.rep.count("decided")
            got = [s.c.get(L + (("i", i),)) for i in range(n)]
            if n != len(r.contacts) or (None not in got and got != sorted(r.contacts)):
                c.bad(d, "getListOfContacts", "contacts", f, "the contacts are listed as %s instead of %s%s" % (got, sorted(r.contacts), self.note()))
        self.clean("accessors")

    def cells(self, name, outs, want, f, parts):
        """compares a vector, component by component"""
        self.c.rep.count("cases")
        for st, v in outs:
            if isinstance(v, M) and v.r != want.r:
                self.c.bad(self.d, name, "size", f, "%s has %d rows instead of %d%s" % (name, v.r, want.r, self.note()))
            elif isinstance(v, M):
                for n, i, k in parts:
                    g, w = v.sub(i, 0, k, 1), want.sub(i, 0, k, 1)
                    r = same(g, w)
                    self.c.rep.count("undecided" if r is None else "decided")
                    if r is False:
                        self.c.bad(self.d, name, n, f, "%s of %s is not what it should be%s%s" % (n, name, relate(g, w), self.note()))
            else:
                self.c.rep.count("undecided", len(parts))

    def xparts(self):
        l = self.lay
        o = [("position", 0, 3), ("orientation", 3, 4), ("linear velocity", 7, 3), ("angular velocity", 10, 3)]
        o += [("gyrometer bias %d" % i, l.b + 3 * i, 3) for i in range(l.ni)] + [("unmodeled wrench", l.w, 6)]
        for i in range(l.nc):
            b = l.c + 13 * i
            o += [("contact %d %s" % (i, n), b + k, m) for n, k, m in (("position", 0, 3), ("orientation", 3, 4), ("force", 7, 3), ("torque", 10, 3))]
        return o

    def yparts(self):
        o, i = [], 0
        for n, k in self.ref.parts():
            for m, a, b in {"IMU": (("acceleration", 0, 3), ("angular velocity", 3, 3)), "wre": (("force", 0, 3), ("torque", 3, 3)), "pos": (("position", 0, 3), ("orientation", 3, 4))}[n[:3]]:
                o.append(("%s %s" % (n, m), i + a, b))
            i += k
        return o

    def one(self, name):
        """value of an accessor, the same on every path"""
        o = self.of(name) if name != "Q" else self.filter("getProcessCovariance")
        v = o[0][1]
        return v if isinstance(v, M) and v.known() and all(same(v, w) for _, w in o) else None

    def motion(self, x=None):
        """the motion model"""
        x = x or state(self.lay, "z%d" % self.n)
        self.n += 1
        f = self.d.method("stateDynamics")
        self.said.append("stateDynamics")
        self.cells("stateDynamics", self.of("stateDynamics", [x, zero(0), self.it]), self.ref.f(x), f, self.xparts())
        self.clean("stateDynamics")
        self.said.pop()

    def step(self):
        """an estimation, compared with the Kalman step"""
        x, P, Q = self.one("getCurrentStateVector"), self.one("getStateCovarianceMat"), self.one("Q")
        if x is None or P is None or Q is None:
            raise AnalysisError("P16: the state before an estimation is not known")
        self.estimate()
        r, d = self.ref, self.d
        xb = r.f(x)
        A, C = mat("A%d" % self.it, self.lay.nt, self.lay.nt), mat("C%d" % self.it, sum(6 if n == "pose" else k for n, k in r.parts()), self.lay.nt)
        yb = r.h(xb)
        Pb = A * P * A.T + Q
        Kg = Pb * C.T * minverse(C * Pb * C.T + r.R())
        self.cells("predicted state", self.filter("getLastPrediction"), xb, d.method("stateDynamics"), self.xparts())
        self.cells("predicted measurement", self.filter("getLastPredictedMeasurement"), yb, d.method("measureDynamics"), self.yparts())
        xn = r.plus(xb, Kg * r.yminus(r.y(), yb))
        self.cells("update", self.of("update"), xn, d.method("update", 0), self.xparts())
        Pn = (eye(self.lay.nt) - Kg * C) * Pb
        self.check("getStateCovarianceMat", (Pn + Pn.T) * 0.5)
        return xn

    def used(self):
        """after the estimation: what was given to the filter"""
        self.check("getMeasurementCovariance", self.ref.R(), outs=self.filter("getMeasurementCovariance"))


# ---- P15
def s_all(q):
    """every kind of sensor, several iterations, sensors that come and go"""
    q.add(0)
    q.read()
    q.add(1, cov=False, own=False, auto=True)
    q.read()
    q.imu(1)
    q.read()
    q.imu(0, own=False)
    q.read()
    q.contact(1, own=True)
    q.contact(0, own=False)
    q.read()
    q.pose()
    q.read()
    q.estimate()
    q.read()
    q.used()
    # the next estimation is of other sensors
    q.contact(0, sensor=False)
    q.read()
    q.imu(0)
    q.contact(1, own=True)
    q.read()
    q.estimate()
    q.read()
    q.used()
    q.contact(0, own=False)
    q.contact(1, sensor=False)
    q.pose()
    q.read()
    q.estimate()
    q.read()
    q.used()


def s_change(q):
    """a sensor is given, then not; a contact is lost while its sensor is pending"""
    q.add(0)
    q.add(2, cov=False)
    q.read()
    q.contact(2, own=True)
    q.contact(0, own=True)
    q.read()
    q.contact(0, sensor=False)
    q.read()
    q.drop(2)
    q.read()
    q.contact(0, own=True)
    q.imu(0)
    q.read()
    q.estimate()
    q.read()
    q.used()
    q.add(1, cov=False, own=False, auto=True)
    q.read()
    q.contact(0, own=True)
    q.contact(1, own=True)
    q.read()
    q.estimate()
    q.used()
    q.drop(0)
    q.read()
    q.add(0, auto=True)
    q.read()


def s_sensorless(q):
    """a contact whose wrench was measured is lost, the one taking its place has no sensor"""
    q.add(0)
    q.contact(0, own=True)
    q.imu(0)
    q.estimate()
    q.used()
    q.drop(0)
    q.imu(0)
    q.read()
    q.estimate()
    q.used()
    q.add(0)
    q.contact(0, sensor=False)
    q.imu(0)
    q.read()
    q.estimate()
    q.read()
    q.used()


def s_clear(q):
    q.add(0)
    q.add(1)
    q.contact(0, own=True)
    q.contact(1, own=True)
    q.imu(0)
    q.do("clearContacts")
    q.ref.contacts, q.ref.wrenches, q.ck = {}, {}, {}
    q.read()
    q.estimate()
    q.used()
    q.read()
    q.add(0, auto=True)
    q.add(2)
    q.read()
    q.contact(2, own=True)
    q.contact(0, sensor=False)
    q.read()
    q.estimate()
    q.read()
    q.used()


def s_imus(q):
    """numbers are given to the IMUs, from the lowest not measured yet"""
    q.imu(0, auto=True)
    q.imu(1, auto=True, own=False)
    q.read()
    q.estimate()
    q.used()
    q.imu(1)
    q.imu(0, auto=True)
    q.read()
    q.estimate()
    q.used()
    q.imu(0)
    q.imu(1, auto=True)
    q.read()
    q.estimate()
    q.used()


def s_reset(q):
    """the inputs are dropped, the contacts kept"""
    q.add(0)
    q.add(1)
    q.contact(0, own=True)
    q.contact(1, sensor=False)
    q.imu(0)
    q.pose()
    q.read()
    q.do("resetInputs")
    q.ref.imus, q.ref.wrenches, q.ref.pose = {}, {}, None
    q.read()
    q.imu(1)
    q.contact(0, sensor=False)
    q.contact(1, own=True)
    q.read()
    q.estimate()
    q.read()
    q.used()
    q.do("resetInputs")
    q.read()
    q.contact(1, own=True)
    q.contact(0, own=True)
    q.imu(0)
    q.read()
    q.estimate()
    q.read()
    q.used()


def s_defaults(q):
    """the default covariances given are the ones used"""
    q.imucov, q.wcov, q.pcov = (blk("dca", 3), blk("dcg", 3)), blk("dw", 6), blk("dp", 6)
    q.do("setIMUDefaultCovarianceMatrix", list(q.imucov))
    q.do("setContactWrenchSensorDefaultCovarianceMatrix", [q.wcov])
    q.do("setAbsolutePoseSensorDefaultCovarianceMatrix", [q.pcov])
    q.add(1)
    q.contact(1, own=False)
    q.imu(0, own=False)
    q.imu(1, own=False)
    q.pose(own=False)
    q.read()
    q.estimate()
    q.used()
    q.read()
    q.contact(1, own=False)
    q.pose(own=False)
    q.imu(1, own=False)
    q.estimate()
    q.used()


def s_original(q):
    """... until they are reset"""
    old = q.imucov, q.wcov, q.pcov
    q.do("setIMUDefaultCovarianceMatrix", [blk("dca", 3), blk("dcg", 3)])
    q.do("setContactWrenchSensorDefaultCovarianceMatrix", [blk("dw", 6)])
    q.do("setAbsolutePoseSensorDefaultCovarianceMatrix", [blk("dp", 6)])
    q.do("resetSensorsDefaultCovMat")
    q.imucov, q.wcov, q.pcov = old
    q.add(2)
    q.contact(2, own=False)
    q.imu(1, own=False)
    q.pose(own=False)
    q.read()
    q.estimate()
    q.used()


def s_inputs(q):
    """the other inputs are not measurements"""
    q.add(0)
    q.do("setCenterOfMass", [vec("com"), vec("comd"), vec("comdd")])
    q.begin()
    q.read()
    q.contact(0, sensor=False)
    q.do("setInertiaMatrix", [mat("I", 3, 3), mat("Id", 3, 3)], pick=q.param("Matrix", 0))
    q.do("setAngularMomentum", [vec("sg"), vec("sgd")])
    q.do("setAdditionalWrench", [vec("f"), vec("t")])
    q.read()
    q.pose()
    q.read()
    q.estimate()
    q.used()
    q.read()


SCRIPTS = (s_all, s_change, s_sensorless, s_clear, s_imus, s_reset, s_defaults, s_original, s_inputs)


def script(prog, rep, tag, f, nc=3, ni=2):
    c = Case(prog, rep, tag)
    q = Seq(c, nc, ni, tag)
    q.do("setStateVector", [state(q.lay, "x"), False])
    q.said = []
    rep.count("sequences")
    q.tried(f, q)


def run_meas(prog, rep, tier):
    rep.rule("Along every sequence, the measurement, its size, its covariance, and the set of contacts, as the accessors give them, must have the value numbers of what was given since the last estimation.")
    parallel(rep, list(SCRIPTS), lambda rep, f: script(prog, rep, "P15", f))
    rep.need("decided", 60)


# ---- P16
def over(q, n):
    return M(1, 1, [c_inv((q.ref.dt * n).x[0])], p=q.ref.dt.p)


class Given:
    """the inputs of the model, and when they were last given"""

    def __init__(self, q):
        self.q, self.t = q, {}

    def com(self, level=3):
        q, r = self.q, self.q.ref
        q.begin()
        t = q.tag()
        c, d, dd = vec(t + "c"), vec(t + "cd"), vec(t + "cdd")
        if level < 3:
            i = over(q, q.it - self.t["com"])
            if level == 1:
                d = (c - r.com) * i
            dd = (d - r.comd) * i
        q.do("setCenterOfMass", [c, d, dd][:level], say="setCenterOfMass with %d arguments" % level)
        r.com, r.comd, r.comdd = c, d, dd
        self.t["com"] = q.it

    def inertia(self, rate=True, six=False):
        q, r = self.q, self.q.ref
        q.begin()
        t = q.tag()

        def both(n):
            if not six:
                m = mat(n, 3, 3)
                return m, m
            v = vec(n, 6)
            x = v.x
            return v, M(3, 3, [x[0], x[3], x[4], x[3], x[1], x[5], x[4], x[5], x[2]], p=v.p)
        a, I = both(t + "I")
        b, D = both(t + "Id")
        if not rate:
            D = (I - r.I) * over(q, q.it - self.t["I"])
        q.do("setInertiaMatrix", [a, b][:2 if rate else 1], say="setInertiaMatrix", pick=q.param("Vector6" if six else "Matrix3", 0))
        r.I, r.Id = I, D
        self.t["I"] = q.it

    def momentum(self, rate=True):
        q, r = self.q, self.q.ref
        q.begin()
        t = q.tag()
        s, d = vec(t + "s"), vec(t + "sd")
        if not rate:
            d = (s - r.sig) * over(q, q.it - self.t["s"])
        q.do("setAngularMomentum", [s, d][:2 if rate else 1])
        r.sig, r.sigd = s, d
        self.t["s"] = q.it

    def wrench(self):
        q, r = self.q, self.q.ref
        t = q.tag()
        r.addF, r.addT = vec(t + "f"), vec(t + "t")
        q.do("setAdditionalWrench", [r.addF, r.addT])


def m_models(q):
    """all the inputs of the models"""
    g = Given(q)
    q.motion()
    g.com()
    q.motion()
    g.inertia()
    g.momentum()
    g.wrench()
    q.motion()
    q.add(0)
    q.add(2, own=False)
    q.contact(0)
    q.contact(2, sensor=False)
    q.motion()
    q.imu(0)
    q.imu(1)
    q.step()
    q.motion()


def m_sensors(q):
    g = Given(q)
    g.com()
    g.inertia(six=True)
    g.momentum()
    g.wrench()
    q.add(1)
    q.contact(1, own=True)
    q.imu(1)
    q.pose()
    q.step()
    q.contact(1, sensor=False)
    q.imu(0)
    q.step()


def m_steps(q):
    """wrench sensors out of order, contacts that come and go between estimations"""
    q.add(2)
    q.add(0)
    q.contact(2, own=True)
    q.contact(0, own=True)
    q.step()
    q.drop(2)
    q.contact(0, own=True)
    q.imu(1)
    q.step()
    q.add(1)
    q.contact(1, own=True)
    q.contact(0, sensor=False)
    q.step()


def m_differences(q):
    """what is not given comes from finite differences"""
    g = Given(q)
    g.com()
    g.inertia()
    g.momentum()
    q.add(0)
    q.contact(0)
    q.imu(0)
    q.motion()
    q.step()
    g.com(2)
    g.inertia(rate=False)
    g.momentum(rate=False)
    q.contact(0, items=POSE)
    q.imu(0, items=POSE)
    q.motion()
    q.step()


def m_gap(q):
    """... over the time since they were last given"""
    g = Given(q)
    g.com()
    g.inertia(six=True)
    g.momentum()
    q.imu(0)
    q.imu(1)
    q.estimate()
    q.imu(1, items=VEL)
    q.estimate()
    g.com(1)
    g.inertia(rate=False, six=True)
    g.momentum(rate=False)
    q.imu(0, items=POSE)
    q.motion()
    q.step()
    g.com(2)
    q.motion()


def m_first(q):
    """kinematics given for the first time without velocities"""
    q.add(0)
    q.add(1)
    q.contact(0, items=POSE)
    q.contact(1, sensor=False)
    q.imu(0, items=POSE)
    q.motion()
    q.step()
    q.drop(0)
    q.contact(1, items=POSE)
    q.imu(1, items=VEL)
    q.step()
    q.add(0)
    q.contact(0, items=POSE)
    q.contact(1, items=POSE)
    q.imu(0)
    q.motion()
    q.step()


def m_again(q):
    """a contact number used again at once is a new contact"""
    q.add(0)
    q.contact(0)
    q.imu(0)
    q.estimate()
    q.drop(0)
    q.add(0)
    q.contact(0, items=POSE)
    q.imu(0)
    q.motion()
    q.step()


def m_parameters(q):
    """parameters that change between estimations; contacts with some of their parameters by default"""
    q.add(0, own=(True, False, False, False))
    q.add(1, own=(False, True, False, True))
    q.add(2, own=(False, False, True, False), cov=False)
    for i in range(3):
        q.contact(i, sensor=i == 1)
    q.imu(0)
    q.step()
    q.ref.m, q.ref.dt = sc("m2"), sc("dt2")
    q.do("setMass", [q.ref.m])
    q.do("setSamplingTime", [q.ref.dt])
    Given(q).wrench()
    for i in range(3):
        q.contact(i, sensor=i == 2, items=POSE)
    q.imu(0, items=POSE)
    q.motion()
    q.step()


def m_switches(q):
    q.do("setWithGyroBias", [False])
    q.ref.bias = False
    q.add(0)
    q.contact(0)
    q.imu(0)
    q.step()
    q.do("setWithUnmodeledWrench", [True])
    q.ref.unmod = True
    q.contact(0, sensor=False)
    q.imu(1)
    q.pose()
    q.step()
    q.do("setWithGyroBias", [True])
    q.ref.bias = True
    q.contact(0)
    q.imu(0)
    q.imu(1)
    q.step()


def m_noise(q):
    q.add(0)
    q.contact(0)
    q.imu(0)
    q.pose()
    q.do("setProcessNoise", [1])
    q.ref.noise_x = True
    q.motion()
    q.do("setMeasurementNoise", [1])
    q.ref.noise_y = True
    q.step()
    q.do("resetProcessNoise")
    q.ref.noise_x = False
    q.motion()
    q.contact(0, sensor=False)
    q.imu(1)
    q.do("resetMeasurementNoise")
    q.ref.noise_y = False
    q.step()


MODELS = (m_models, m_sensors, m_steps, m_differences, m_gap, m_first, m_again, m_parameters, m_switches, m_noise)


def m_jacobians(prog, rep, sensor):
    """the finite differences of both models, column by column"""
    c = Case(prog, rep, "P16")
    q = Seq(c, 1, 1, "P16", jacobians=True)
    l, d = q.lay, q.d
    x, dx = state(l, "x"), vec("dx", l.nt)
    q.do("setFiniteDifferenceStep", [dx])
    q.do("setStateVector", [x, False])
    q.said = []
    rep.count("sequences")
    q.add(0)
    g = Given(q)
    g.com()
    g.momentum()
    q.contact(0, sensor=not sensor)
    q.imu(0)
    if sensor:
        q.do("setWithUnmodeledWrench", [True])
        q.ref.unmod = True
        q.pose()
    x = q.one("getCurrentStateVector")
    if x is None:
        raise AnalysisError("P16: the state before an estimation is not known")
    q.estimate()
    r = q.ref
    xb = r.f(x)
    yb = r.h(xb)
    for name, n, base, f, diff in (("getA", l.nt, x, r.f, lambda a, t: r.minus(a, xb, t)), ("getC", r.R().r, xb, r.h, lambda a, t: r.yminus(a, yb))):
        ms = [(s, v) for s, v in q.filter(name)]
        fn = d.method("stateDynamics" if name == "getA" else "measureDynamics")
        what = "Jacobian of the %s" % ("motion model" if name == "getA" else "measurement")
        rep.count("cases")
        for i in range(l.nt):
            t = M(l.nt, 1, [dx.x[i] if j == i else 0 for j in range(l.nt)], p=dx.p)
            w = diff(f(r.plus(base, t)), t) * M(1, 1, [c_inv(dx.x[i])], p=dx.p)
            for s, v in ms:
                if not isinstance(v, M) or (v.r, v.c) != (n, l.nt):
                    c.rep.count("undecided")
                    continue
                got = v.sub(0, i, n, 1)
                k = same(got, w)
                c.rep.count("undecided" if k is None else "decided")
                if k is False:
                    c.bad(d, what, "column %d" % i, fn, "column %d of the %s is not the finite difference%s" % (i, what, q.note()))


def run_models(prog, rep, tier):
    rep.rule("Along every sequence, every component of the predicted state, the predicted measurement, the estimated state and its covariance must have the value number of the specified model.")
    parallel(rep, list(MODELS) + [False, True], lambda rep, f: m_jacobians(prog, rep, f) if isinstance(f, bool) else script(prog, rep, "P16", f))
    rep.need("decided", 100)


# ---- P17
def kparts(q, name, outs, want, f, items=ALL):
    """compares a returned Kinematics object, quantity by quantity; want: K, what is absent must not be set"""
    c = q.c
    c.rep.count("cases")
    if not outs:
        raise AnalysisError("P17: no path through %s" % name)
    for s, L in outs:
        for it in items:
            n = ITEMS[it]
            has = want.has("q" if it == "orientation" else n)
            on, v = get(s, L, it) if L is not None else (None, None)
            if on is None:
                c.rep.count("undecided")
                continue
            c.rep.count("decided")
            if bool(on) != has:
                c.bad(q.d, name, it, f, "%s given by %s is %sset%s" % (it, name, "" if on else "not ", q.note()))
                continue
            if not has:
                continue
            if not isinstance(v, M):
                c.rep.count("undecided")
                continue
            w = want.k.get(n) if it != "orientation" else want.R
            if it == "orientation" and v.k == "q" or it == "orientation" and v.r == 4:
                v = q2R(seg_q(v, 0))
            r = same(v, w)
            c.rep.count("undecided" if r is None else "decided")
            if r is False:
                c.bad(q.d, name, it, f, "%s given by %s is not what it should be%s%s" % (it, name, relate(v, w), q.note()))


class Access(Seq):
    def state_is(self, x, acc=None, say="getters"):
        """every getter of the state gives the components of x"""
        d, l, r = self.d, self.lay, self.ref
        self.cells("getCurrentStateVector", self.of("getCurrentStateVector"), x, d.method("getCurrentStateVector"), self.xparts())
        self.check("getUnmodeledWrench", x.seg(l.w, 6))
        for i in sorted(r.contacts):
            b = l.c + 13 * i
            self.check("getContactWrench", x.seg(b + 7, 6), [i])
            kparts(self, "getContactPosition", d.obj(self.st, "getContactPosition", [i]), K(p=x.seg(b, 3), q=seg_q(x, b + 3)), d.method("getContactPosition"), VEL)
        k = r.kine(x)
        if acc is not None:
            k = K(a=acc.a, dw=acc.dw, **k.k)
        items = ALL if acc is not None else VEL
        kparts(self, "getKinematics", d.obj(self.st, "getKinematics"), k, d.method("getKinematics"), items)
        loc = kin("local", VEL)
        self.said.append("getKinematicsOf a frame")
        kparts(self, "getKinematicsOf", d.obj(self.st, "getKinematicsOf", [put(loc)]), prod(r.kine(x), loc), d.method("getKinematicsOf"), VEL)
        self.said.pop()
        self.clean(say)

    def starts_from(self, x):
        """the next estimation starts from x: its prediction is that of x"""
        r = self.fork()
        for i in sorted(r.ref.contacts):
            r.contact(i, sensor=False)
        r.imu(0)
        r.estimate()
        self.cells("predicted state", r.filter("getLastPrediction"), r.ref.f(x), self.d.method("stateDynamics"), self.xparts())


def a_setters(q, part):
    """every setter of the state changes the component it names, for the getters and for the next estimation"""
    l = q.lay
    q.add(0)
    q.add(2)
    q.contact(0)
    q.contact(2)
    q.imu(0)
    q.estimate()
    x = state(l, "y")
    q.do("setStateVector", [x, False])
    q.said = []
    if part == 0:
        q.state_is(x)
        q.starts_from(x)
    cases = []
    for rc in (False, True):
        for i in range(l.ni):
            b = vec("newb")
            cases.append(("setGyroBias", [b, i, rc], setseg(x, b, l.b + 3 * i)))
        w = vec("neww", 6)
        cases.append(("setStateUnmodeledWrench", [w, rc], setseg(x, w, l.w)))
        z = state(l, "z")
        cases.append(("setStateVector", [z, rc], z))
        for rf in (False, True):
            k = kin("newk", VEL)
            y = setseg(x, stack(k.p, qv(k.q), k.v, k.w), 0)
            if rf:
                for i in (0, 2):
                    y = setseg(y, zero(6), l.c + 13 * i + 7)
            cases.append(("setStateKinematics", [put(k), rf, rc], y))
    for name, args, want in cases[part::6]:
        r = q.fork()
        r.do(name, args)
        r.state_is(want)
        r.starts_from(want)
    if part:
        return
    r = q.fork()
    k = kin("pose1", POSE)
    r.add(1)
    y = setseg(x, stack(k.p, qv(k.q), zero(6)), l.c + 13)
    r.state_is(y)
    r.starts_from(y)


def a_accelerations(q):
    """the accelerations are those of the estimated state"""
    g = Given(q)
    g.com()
    g.inertia()
    g.momentum()
    g.wrench()
    q.add(1)
    q.contact(1)
    q.imu(0)
    q.estimate()
    x = state(q.lay, "y")
    q.do("setStateVector", [x, False])
    q.said = []
    k = q.ref.accelerations(x)
    kparts(q, "estimateAccelerations", q.d.obj(q.st, "estimateAccelerations"), k, q.d.method("estimateAccelerations"))
    q.do("estimateAccelerations")
    q.state_is(x, acc=k)
    g.wrench()
    kparts(q, "estimateAccelerations", q.d.obj(q.st, "estimateAccelerations"), q.ref.accelerations(x), q.d.method("estimateAccelerations"))
    r = q.fork()
    y = state(q.lay, "z")
    r.do("setStateVector", [y, True])
    kparts(r, "getKinematics", r.d.obj(r.st, "getKinematics"), r.ref.kine(y), r.d.method("getKinematics"))
    r.do("estimateAccelerations")
    kparts(r, "getKinematics", r.d.obj(r.st, "getKinematics"), r.ref.accelerations(y), r.d.method("getKinematics"))
    q.contact(1)
    q.imu(0)
    xn = q.step()
    q.state_is(xn)
    kparts(q, "getKinematics", q.d.obj(q.st, "getKinematics"), q.ref.kine(xn), q.d.method("getKinematics"))
    q.do("setWithAccelerationEstimation", [True])
    q.contact(1)
    q.imu(1)
    xn = q.step()
    q.state_is(xn, acc=q.ref.accelerations(xn))
    q.do("setWithAccelerationEstimation", [False])
    q.contact(1)
    q.imu(1)
    xn = q.step()
    kparts(q, "getKinematics", q.d.obj(q.st, "getKinematics"), q.ref.kine(xn), q.d.method("getKinematics"))


def tparts(l):
    o = [("position", 0, 3), ("orientation", 3, 3), ("linear velocity", 6, 3), ("angular velocity", 9, 3)]
    o += [("gyrometer bias %d" % i, l.bt + 3 * i, 3) for i in range(l.ni)] + [("unmodeled wrench", l.wt, 6)]
    for i in range(l.nc):
        o += [("contact %d %s" % (i, n), l.ct + 12 * i + k, m) for n, k, m in (("position", 0, 3), ("orientation", 3, 3), ("wrench", 6, 6))]
    return o


def sums(q):
    d, l, r = q.d, q.lay, q.ref
    x, z, t = state(l, "s1"), state(l, "s2"), vec("t", l.nt)
    q.cells("stateSum", q.of("stateSum", [x, t]), r.plus(x, t), d.method("stateSum", 3), q.xparts())
    q.cells("stateDifference", q.of("stateDifference", [x, z]), r.minus(x, z), d.method("stateDifference", 3), tparts(l))
    q.clean("state arithmetics")


def a_arithmetics(q):
    """sum and difference of states, with and without each of the components"""
    q.said = []
    sums(q)
    q.add(1)
    sums(q)
    for b in (True, False):
        for w in (True, False):
            q.do("setWithGyroBias", [b])
            q.do("setWithUnmodeledWrench", [w])
            q.ref.bias, q.ref.unmod = b, w
            sums(q)
    q.add(0)
    q.add(2)
    sums(q)
    q.drop(1)
    sums(q)
    q.do("clearContacts")
    q.ref.contacts = {}
    sums(q)


INDEXES = (("kineIndex", 0, 0), ("posIndex", 0, 0), ("oriIndex", 3, 3), ("linVelIndex", 7, 6), ("angVelIndex", 10, 9))


def indexes(q):
    d, l = q.d, q.lay

    def idx(name, a, b, *args):
        for n, w in ((name, a), (name + "Tangent", b)):
            f = d.method(n, len(args), pick=(q.param("int", 0) if args else None))
            q.c.compare(d, n, q.of(f, list(args)), S(w), f, q.note() + (" for number %d" % args if args else ""))
    for n, a, b in INDEXES:
        idx(n, a, b)
    for i in range(l.ni):
        idx("gyroBiasIndex", l.b + 3 * i, l.bt + 3 * i, i)
    for n, k in (("unmodeledWrenchIndex", 0), ("unmodeledForceIndex", 0), ("unmodeledTorqueIndex", 3), ("contactsIndex", 6)):
        idx(n, l.w + k, l.wt + k)
    for i in sorted(q.ref.contacts):
        b, t = l.c + 13 * i, l.ct + 12 * i
        for n, k, j in (("contactIndex", 0, 0), ("contactKineIndex", 0, 0), ("contactPosIndex", 0, 0), ("contactOriIndex", 3, 3), ("contactWrenchIndex", 7, 6), ("contactForceIndex", 7, 6), ("contactTorqueIndex", 10, 9)):
            idx(n, b + k, t + j, i)
    q.check("getStateSize", S(l.n))
    q.clean("indexes")


def a_indexes(q):
    q.said = []
    indexes(q)
    for i in range(q.lay.nc):
        q.add(i, cov=i % 2 == 0)
    indexes(q)
    q.drop(0)
    indexes(q)


def a_new(q):
    """a new observer is at the origin, at rest"""
    q.said = []
    x = setseg(zero(q.lay.n), S(1), 6)
    q.state_is(x)
    q.add(0)
    q.state_is(setseg(x, stack(kin("pose0", POSE).p, qv(kin("pose0", POSE).q), zero(6)), q.lay.c))


def a_given(q):
    """setting the sampling time and asking for it"""
    dt = sc("newdt")
    q.do("setSamplingTime", [dt])
    q.check("getSamplingTime", dt)


ACCESS = tuple((i, 3, 2, True) for i in range(6)) + ((a_accelerations, 2, 2, True), (a_arithmetics, 3, 2, True), (a_indexes, 3, 2, True), (a_indexes, 1, 1, True), (a_indexes, 2, 3, True), (a_new, 3, 2, False), (a_given, 1, 1, True))


def run_access(prog, rep, tier):
    rep.rule("Every getter of the state and every index must have the value numbers of the components it names, after every setter and estimation; sum and difference of states those of the specified arithmetics.")

    def work(rep, w):
        f, nc, ni, given = w
        c = Case(prog, rep, "P17")
        q = Access(c, nc, ni, "P17")
        if given:
            q.do("setStateVector", [state(q.lay, "x"), False])
            q.said = []
        rep.count("sequences")
        if isinstance(f, int):
            q.tried(a_setters, q, f)
        else:
            q.tried(f, q)
    parallel(rep, list(ACCESS), work)
    rep.need("decided", 300)
