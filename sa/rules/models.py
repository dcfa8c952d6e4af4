"""P12: sensor and motion models compute what rigid-body mechanics give.

Every model is configured through its constructor and public setters, and its evaluations are analysed with cell-wise value numbering
(sa/fp.py).  Every cell of every result is compared with the value number of the specified expression.
  R1  accelerometer, gyrometer and magnetometer, in both modes, with and without concatenated input and noise
  R2  state and measurement of the inertial models and of the models with fixed contacts (0 to 3 contacts)
  R3  Jacobians and state arithmetics of the multiplicative model
  R4  the bidimensional pendulum
  R5  the step of the tilt estimator
"""
from ..drive import Drive
from ..fp import M, S, vec, sc, quat, rot, stack, zero, eye, cross, skew, mul, qmul, qexp, q2R, qconj, Rlog, same, relate, mat, unknown, H, sqrt, dot, c_inv, trig
from ..interp import Val
from ..extract import AnalysisError

N = "stateObservation::"
FL = N + "flexibilityEstimation::"
G = N + "cst::gravity"


class Case:
    def __init__(self, prog, rep, tag="P12"):
        self.prog, self.rep, self.tag = prog, rep, tag

    def drive(self, cls, setup=None):
        self.rep.count("classes")
        return Drive(self.prog, cls, self.tag, setup=setup or noise)

    def compare(self, d, what, outs, want, f, note=""):
        """outs: [(state, value)]; want: [(name, M)] stacked vertically, or one M"""
        self.rep.count("cases")
        if not outs and not d.fails:
            raise AnalysisError("%s: no path through %s%s" % (self.tag, f["q"], note))
        for s, v in outs:
            self.value(d, what, v, want, f, note)
        self.faults(d, f, note, what)

    def faults(self, d, f, note="", what="call"):
        for node, fr, msg in d.oob:
            self.bad(d, what, "bounds", fr.fn if fr else f, "%s%s" % (msg, note), node)
        for node, fr in d.fails:
            self.bad(d, what, "assertion", fr.fn, "an assertion of %s fails%s" % (fr.fn["q"], note), node)
        del d.oob[:]
        del d.fails[:]

    def value(self, d, what, v, want, f, note=""):
        if isinstance(want, M):
            want = [("result", want)]
        if not isinstance(v, M):
            self.rep.count("undecided", len(want))
            return
        n = sum(w.r for _, w in want)
        if v.r != n and v.k == "m":
            self.bad(d, what, "size", f, "%s has %d rows instead of %d%s" % (what, v.r, n, note))
            return
        i = 0
        for name, w in want:
            got = v if len(want) == 1 else v.sub(i, 0, w.r, v.c)
            if w.k == "q" and got.k == "m":
                got = M(4, 1, got.x, "q", got.p)
            i += w.r
            r = same(got, w)
            if r is None:
                self.rep.count("undecided")
            else:
                self.rep.count("decided")
                self.rep.sample("%s %s: %s from %s" % (d.cls, what, name, sorted(map(str, w.p))))
                if not r:
                    self.bad(d, what, name, f, "%s of %s is not what it should be%s%s" % (name, what, relate(got, w), note))

    def bad(self, d, what, name, f, msg, node=None):
        self.rep.bad("%s %s %s" % (d.cls.rsplit("::", 1)[-1], what, name), "%s:%s" % (f.get("file"), (node or {}).get("l", f.get("l"))), msg)


def noise(dom):
    def noisy(dom, I, st, node, obj, args, fr):
        v = I.rv(st, args[0], node["a"][0], fr).v
        if not isinstance(v, M) or not v.known():
            return [(st, Val(node=node))]
        return [(st, Val(v=noisyv(v), node=node))]
    dom.opaque_fns["getNoisy"] = noisy


def noisyv(v):
    return M(v.r, v.c, [H("noisy", v.x, i) for i in range(len(v.x))], p=v.p | {"noise"})


def half(dt):
    return dt * dt * 0.5


def free_motion(p, v, a, q, w, wd, dt):
    return p + v * dt + a * half(dt), qmul(qexp(w * dt + wd * half(dt)), q), v + a * dt, w + wd * dt


def gravity(d):
    I = d.interp()
    g = I.dom.glob(I, G)
    if not isinstance(g, M) or not g.known() or (g.r, g.c) != (3, 1):
        raise AnalysisError("P12: value of the gravity not found")
    return g


def sensors(c):
    for cls, mag in ((N + "AccelerometerGyrometer", False), (N + "AccelerometerGyrometerMagnetometer", True)):
        for mm in (False, True):
            for cat in (0, 4):
                for second in (False, True):
                    d = c.drive(cls)
                    g = gravity(d)
                    q, a, w, extra = quat("q"), vec("a"), vec("w"), vec("extra", 4)
                    R = q2R(q)
                    B = M(3, 1, [0, 28 % (2**61 - 1), S(-33.7).x[0]])
                    st = d.new()
                    f = d.method("getMeasurements", 1)
                    note = " (%s mode%s%s)" % ("matrix" if mm else "quaternion", ", with concatenated input" if cat else "", ", second evaluation" if second else "")
                    st = d.states(st, "setMatrixMode", [mm])
                    if cat:
                        st = d.states(st, "concatenateWithInput", [cat])
                    if second:
                        q0 = quat("q0")
                        x0 = stack(R2v(q2R(q0)) if mm else coeffs(q0), vec("a0"), vec("w0"), *([vec("e0", 4)] if cat else []))
                        st = d.states(st, "setState", [x0, 1])
                        st = d.states(st, "getMeasurements", [True])
                    x = stack(R2v(R) if mm else coeffs(q), a, w, *([extra] if cat else []))
                    st = d.states(st, "setState", [x, 2])
                    want = [("acceleration", R.T * (a + g)), ("angular velocity", R.T * w)]
                    if mag:
                        want.append(("magnetic field", R.T * B))
                    if cat:
                        want.append(("concatenated input", extra))
                    c.compare(d, "measurement", d.call(st, "getMeasurements", [False]), want, f, note)
                    c.compare(d, "measurement", d.call(st, "getMeasurements", [True]), want, f, note)
                    n = sum(z.r for _, z in want)
                    c.compare(d, "measurement size", d.call(st, "getMeasurementSize"), S(n), d.method("getMeasurementSize", 0), note)
                    c.compare(d, "state size", d.call(st, "getStateSize"), S(x.r), d.method("getStateSize", 0), note)
                    st = d.states(st, "setNoise", [1])
                    if not second:
                        st = d.states(st, "setState", [x, 2])
                        y = stack(*[z for _, z in want])
                        c.compare(d, "noisy measurement", d.call(st, "getMeasurements", [True]), noisyv(y), f, note)
                        c.compare(d, "measurement", d.call(st, "getMeasurements", [False]), want, f, note + " (with noise)")
                        st2 = d.states(st, "getMeasurements", [True])
                        c.compare(d, "measurement", d.call(st2, "getMeasurements", [False]), want, f, note + " (after the noisy one)")
                    st = d.states(st, "resetNoise")
                    st = d.states(st, "setState", [x, 2])
                    c.compare(d, "measurement", d.call(st, "getMeasurements", [True]), want, f, note + " (noise removed)")


def coeffs(q):
    return M(4, 1, q.x, p=q.p)


def R2v(R):
    return M(9, 1, R.T.x, p=R.p)


def both(c, d, st, name, args, want, note=""):
    """the operation evaluated once, and again with the same arguments after another evaluation"""
    f = d.method(name)
    c.compare(d, name, d.call(st, name, args), want, f, note)
    st2 = d.states(st, name, args)
    c.compare(d, name, d.call(st2, name, args), want, f, note + " (evaluated twice)")


def inertial(c):
    for cls, kind in ((N + "IMUDynamicalSystem", "u"), (N + "IMUMagnetometerDynamicalSystem", "mag"), (N + "IMUMltpctiveDynamicalSystem", "q")):
        d = c.drive(cls)
        g = gravity(d)
        dt = sc("dt")
        p, v, a, w, wd = vec("p"), vec("v"), vec("a"), vec("w"), vec("wd")
        if kind == "q":
            q = quat("q")
            x = stack(p, coeffs(q), v, w, a, wd)
        else:
            o = vec("o")
            q = qexp(o)
            x = stack(p, o, v, w, a, wd)
        R = q2R(q)
        au, wu = vec("au"), vec("wu")
        u = stack(au, wu)
        st = d.states(d.new(), "setSamplingPeriod", [dt])
        p1, q1, v1, w1 = free_motion(p, v, a, q, w, wd, dt)
        acc = [("acceleration", zero(3)), ("angular acceleration", zero(3))] if kind == "mag" else [("acceleration", au), ("angular acceleration", wu)]
        want = [("position", p1), ("orientation", q1 if kind == "q" else Rlog(q2R(q1))), ("velocity", v1), ("angular velocity", w1)] + acc
        y = [("acceleration", R.T * (a + g)), ("angular velocity", R.T * w)]
        if kind == "mag":
            y.append(("magnetic field", R.T * M(3, 1, [0, S(28).x[0], S(-33.7).x[0]])))
        both(c, d, st, "stateDynamics", [x, u, 5], want)
        both(c, d, st, "measureDynamics", [x, u, 5], y)
        # after an evaluation elsewhere
        x2 = stack(vec("p2"), coeffs(quat("q2")) if kind == "q" else vec("o2"), vec("v2"), vec("w2"), vec("a2"), vec("wd2"))
        for m in ("stateDynamics", "measureDynamics"):
            s2 = d.states(st, m, [x2, vec("u2", 6), 4])
            c.compare(d, "stateDynamics", d.call(s2, "stateDynamics", [x, u, 5]), want, d.method("stateDynamics"), " (after another evaluation)")
            c.compare(d, "measureDynamics", d.call(s2, "measureDynamics", [x, u, 5]), y, d.method("measureDynamics"), " (after another evaluation)")
        noises(c, d, st, x, u, want, y)
        sizes(c, d, st, x.r, 0 if kind == "mag" else 6, len(y) * 3)
        if kind == "q":
            jacobians(c, d, st, x, q, a, w, wd, dt, g)
            arithmetics(c, d, st)


def noises(c, d, st, x, u, want, y):
    s2 = d.states(st, "setProcessNoise", [1])
    c.compare(d, "stateDynamics", d.call(s2, "stateDynamics", [x, u, 5]), noisyv(cat(want)), d.method("stateDynamics"), " (with process noise)")
    s3 = d.states(s2, "resetProcessNoise")
    c.compare(d, "stateDynamics", d.call(s3, "stateDynamics", [x, u, 5]), want, d.method("stateDynamics"), " (process noise removed)")
    if y is not None:
        s2 = d.states(st, "setMeasurementNoise", [1])
        c.compare(d, "measureDynamics", d.call(s2, "measureDynamics", [x, u, 5]), noisyv(cat(y)), d.method("measureDynamics"), " (with measurement noise)")
        s3 = d.states(s2, "resetMeasurementNoise")
        c.compare(d, "measureDynamics", d.call(s3, "measureDynamics", [x, u, 5]), y, d.method("measureDynamics"), " (measurement noise removed)")


def cat(want):
    return stack(*[M(w.r, 1, w.x, p=w.p) for _, w in want])


def sizes(c, d, st, x, u, y):
    for m, n in (("getStateSize", x), ("getInputSize", u), ("getMeasurementSize", y)):
        c.compare(d, m, d.call(st, m), S(n), d.method(m, 0))


def jacobians(c, d, st, x, q, a, w, wd, dt, g):
    def deriv(dom):
        noise(dom)

        def h(dom, I, st, node, obj, args, fr):
            v = I.rv(st, args[0], node["a"][0], fr).v
            for i, nm in ((1, "jRR"), (2, "jRv")):
                r = q2R(qexp(v)) if nm == "jRR" and isinstance(v, M) else M(3, 3, [H(nm, v.x, k) for k in range(9)], p=v.p) if isinstance(v, M) and v.known() else unknown(3, 3)
                I.write(st, args[i], Val(v=r, node=node), node, fr, "=")
            return [(st, Val(node=node))]
        dom.opaque_fns["derivateRotationMultiplicative"] = h
    d.setup = deriv
    delta = w * dt + wd * half(dt)
    jRR = q2R(qexp(delta))
    jRv = M(3, 3, [H("jRv", delta.x, k) for k in range(9)], p=delta.p)
    I3, Z = eye(3), zero(3, 3)
    rows = [[I3, Z, I3 * dt, Z, I3 * half(dt), Z],
            [Z, jRR, Z, jRv * dt, Z, jRv * half(dt)],
            [Z, Z, I3, Z, I3 * dt, Z],
            [Z, Z, Z, I3, Z, I3 * dt],
            [Z] * 6, [Z] * 6]
    names = ["position", "orientation", "velocity", "angular velocity", "acceleration", "angular acceleration"]
    other = stack(vec("p2"), coeffs(quat("q2")), vec("v2"), vec("w2"), vec("a2"), vec("wd2"))
    for note, s in (("", st), (" (after another evaluation)", d.states(st, "getAMatrix", [other]))):
        c.compare(d, "getAMatrix", d.call(s, "getAMatrix", [x]), [(names[i], row(r)) for i, r in enumerate(rows)], d.method("getAMatrix"), note)
    R = q2R(q)
    C = [("acceleration", row([Z, R.T * skew(a + g), Z, Z, R.T, Z])), ("angular velocity", row([Z, R.T * skew(w), Z, R.T, Z, Z]))]
    for note, s in (("", st), (" (after another evaluation)", d.states(st, "getCMatrix", [other]))):
        c.compare(d, "getCMatrix", d.call(s, "getCMatrix", [x]), C, d.method("getCMatrix"), note)
    d.setup = noise


def row(bs):
    return M(bs[0].r, sum(b.c for b in bs), [b.at(i, j) for i in range(bs[0].r) for b in bs for j in range(b.c)], p=frozenset().union(*[b.p for b in bs]))


def arithmetics(c, d, st):
    q, q2 = quat("q"), quat("q2")
    parts = [vec("s%d" % i) for i in range(5)]
    t = [vec("t%d" % i) for i in range(6)]
    x = stack(parts[0], coeffs(q), *parts[1:])
    tan = stack(*t)
    f = d.method("stateSum")
    out = [(s, s.d.get((("arg", 2, f["p"][2]["n"]),))) for s, v in d._run(st, f, [x, tan, None])]
    names = ["velocity", "angular velocity", "acceleration", "angular acceleration"]
    c.compare(d, "stateSum", out, [("position", parts[0] + t[0]), ("orientation", qmul(qexp(t[1]), q))] + [(n, parts[i + 1] + t[i + 2]) for i, n in enumerate(names)], f)
    p2 = [vec("r%d" % i) for i in range(5)]
    y = stack(p2[0], coeffs(q2), *p2[1:])
    f = d.method("stateDifference")
    out = [(s, s.d.get((("arg", 2, f["p"][2]["n"]),))) for s, v in d._run(st, f, [x, y, None])]
    c.compare(d, "stateDifference", out, [("position", parts[0] - p2[0]), ("orientation", Rlog(q2R(qmul(q, qconj(q2)))))] + [(n, parts[i + 1] - p2[i + 1]) for i, n in enumerate(names)], f)


def fixed_contact(c, tier):
    for cls in (FL + "IMUFixedContactDynamicalSystem", FL + "StableIMUFixedContactDynamicalSystem"):
        stable = "Stable" in cls
        for nc in range(0, 4):
            d = c.drive(cls)
            g = gravity(d)
            dt = sc("dt")
            p, o, v, w, a, wd = [vec(n) for n in ("p", "o", "v", "w", "a", "wd")]
            x = stack(p, o, v, w, a, wd)
            pc, oc, vc, wc, ac = [vec(n) for n in ("pc", "oc", "vc", "wc", "ac")]
            u = stack(pc, oc, vc, wc, ac)
            cs = [vec("c%d" % i) for i in range(nc)]
            st = d.new([sc("dt0")])
            st = d.states(st, "setSamplingPeriod", [dt])
            st = d.states(st, "setContactsNumber", [nc])
            for i, cp in enumerate(cs):
                st = d.states(st, "setContactPosition", [i, cp])
            a1, wd1 = (a, wd)
            if stable:
                a1, wd1 = p * -25 - v, o * -25 - w
            p1, q1, v1, w1 = free_motion(p, v, a1, qexp(o), w, wd1, dt)
            want = [("position", p1), ("orientation", Rlog(q2R(q1))), ("velocity", v1), ("angular velocity", w1), ("acceleration", a1), ("angular acceleration", wd1)]
            R = q2R(qexp(o))
            Rt = R * q2R(qexp(oc))
            acc = cross(wd, R * pc) + cross(w, cross(w, R * pc)) + cross(w, R * vc) * 2 + a + R * ac
            y = [("acceleration", Rt.T * (acc + g)), ("angular velocity", Rt.T * (w + R * wc))] + [("contact %d" % i, R * cp + p - cp) for i, cp in enumerate(cs)]
            note = " (%d contacts)" % nc
            both(c, d, st, "stateDynamics", [x, u, 5], want, note)
            both(c, d, st, "measureDynamics", [x, u, 5], y, note)
            s2 = d.states(st, "measureDynamics", [vec("x2", 18), vec("u2", 15), 4])
            c.compare(d, "stateDynamics", d.call(s2, "stateDynamics", [x, u, 5]), want, d.method("stateDynamics"), note + " (after another evaluation)")
            c.compare(d, "measureDynamics", d.call(s2, "measureDynamics", [x, u, 5]), y, d.method("measureDynamics"), note + " (after another evaluation)")
            sizes(c, d, st, 18, 15, 6 + 3 * nc)
            if nc == 1:
                noises(c, d, st, x, u, want, None)


def pendulum(c):
    d = c.drive(N + "BidimElasticInvPendulum")
    p, th, pd, thd, u = [sc(n) for n in ("p", "theta", "pdot", "thetadot", "u")]
    k, m, h, dt = [sc(n) for n in ("k", "m", "h", "dt")]
    st = d.new()
    for n, v in (("setHeight", h), ("setMass", m), ("setElasticity", k), ("setSamplingPeriod", dt)):
        st = d.states(st, n, [v])
    I = d.interp()
    g = gravity(d)
    gc = M(1, 1, [g.x[2]])
    cos, sin = [M(1, 1, [x]) for x in trig(th.x[0])]
    inertia = m * (p * p + h * h)
    thdd = (k * th * -1 - m * gc * (cos * p - sin * h) + m * (h * u - thd * p * pd * 2)) * M(1, 1, [c_inv(inertia.x[0])])
    want = [("position", p + dt * pd), ("angle", th + dt * thd), ("velocity", pd + dt * u), ("angular velocity", thd + dt * thdd)]
    x = stack(p, th, pd, thd)
    f = d.method("stateDynamics")
    c.compare(d, "stateDynamics", d.call(st, "stateDynamics", [x, u, 3]), want, f)
    noises(c, d, st, x, u, want, None)
    sizes(c, d, st, 4, 1, 0)


def tilt(c):
    d = c.drive(N + "TiltEstimator")
    al, be, ga, dt = [sc(n) for n in ("alpha", "beta", "gamma", "dt")]
    st = d.new([sc("al0"), sc("be0"), sc("ga0")])
    p, R, v, w, vc = vec("p"), rot("R"), vec("v"), vec("w"), vec("vc")
    for n, x in (("setAlpha", al), ("setBeta", be), ("setGamma", ga), ("setSamplingTime", dt), ("setSensorPositionInC", p), ("setSensorOrientationInC", R),
                 ("setSensorLinearVelocityInC", v), ("setSensorAngularVelocityInC", w), ("setControlOriginVelocityInW", vc)):
        st = d.states(st, n, [x])
    x1, x2p, x2, ya, yg = vec("x1"), vec("x2p"), vec("x2"), vec("ya"), vec("yg")
    st = d.states(st, "setState", [stack(x1, x2p, x2), 4])
    st = d.states(st, "setMeasurement", [ya, yg, 5])
    g = gravity(d)
    gc = M(1, 1, [g.x[2]])
    z = R.T * (vc + v) + cross(yg - R.T * w, R.T * p)
    n1 = x1 + (cross(x1, yg) - x2p * gc + ya + (z - x1) * al) * dt
    n2 = x2p + (cross(x2p, yg) - (z - x1) * be) * dt
    n3 = x2 + cross(x2, yg - cross(x2, x2p) * ga) * dt
    n3 = n3 * M(1, 1, [c_inv(sqrt(dot(n3, n3).x[0]))])
    f = d.method("oneStepEstimation_")
    outs = d.call(st, "getEstimatedState", [5], pick=lambda f: len(f["p"]) == 1)
    c.compare(d, "estimate", outs, [("velocity", n1), ("intermediate tilt", n2), ("tilt", n3)], f)
    for s, val in outs:
        c.compare(d, "time", d.call([s], "getCurrentTime"), S(5), f)


def run(prog, rep, tier):
    c = Case(prog, rep)
    sensors(c)
    inertial(c)
    fixed_contact(c, tier)
    pendulum(c)
    tilt(c)
    rep.need("decided", 150)
    rep.need("classes", 20)
