"""P20: wrong sizes, missing data and wrong times are refused, and what is right is accepted.

  R1  filters: every setter refuses every shape but the declared one, and the blank matrices and vectors have that shape; an estimation with
      something missing is refused; a change of size forgets exactly what depends on it
  R2  observers and simulators: a time that leaves a gap, or comes before what is held, is refused
  R3  noises, models and estimators refuse the wrong sizes and indexes of contacts
  R4  kinetics observer: unknown, existing, repeated or not updated contacts and IMUs, and incomplete poses, are refused
  R5  checked items, arrays and kinematics refuse to give what they do not hold
The source is followed with value numbering (sa/fp.py), with assertions enabled: a use is refused when no path goes through it.
"""
from ..drive import Drive, Stops
from ..fp import M, S, vec, sc, mat, zero, eye, mul
from ..interp import Val
from ..extract import AnalysisError
from ..report import parallel
from .models import Case
from .kinetics import Seq
from .times import truth, LKF, N, ObsCase, Obs, SimCase, Sim, ArrCase, ARRAYS, shapes as arrangements

INDEXED = (N + "IndexedMatrixT<Eigen::Matrix<double, -1, 1>>", N + "IndexedMatrixT<>")
EKF = N + "ExtendedKalmanFilter"


class Uses(Case):
    def __init__(self, prog, rep):
        Case.__init__(self, prog, rep, "P20")

    def run(self, d, st, f, args):
        """-> (refused, outcomes)"""
        if isinstance(f, str):
            f = d.method(f, len(args))
        del d.fails[:], d.oob[:]
        try:
            outs = d._run(st, f, args)
        except Stops:
            outs = []
        if not outs and not d.fails:
            raise AnalysisError("P20: no path through %s" % f["q"])
        r = bool(d.fails), outs
        self.outside = list(d.oob)
        del d.fails[:], d.oob[:]
        self.rep.count("uses")
        return f, r

    def refused(self, d, st, f, args, note):
        f, (r, outs) = self.run(d, st, f, args)
        self.rep.count("refusals")
        wild = [x for x in self.outside if "container" in x[2] or "functor" in x[2]]
        if outs and not any("container" not in m for _, _, m in self.outside):
            self.bad(d, f["q"].rsplit("::", 1)[-1], "refusal", f, "%s is accepted" % note)
        elif wild:
            node, fr, msg = wild[0]
            self.bad(d, f["q"].rsplit("::", 1)[-1], "refusal", fr.fn if fr else f, "%s: %s before the refusal" % (note, msg), node)
        return not outs

    def accepted(self, d, st, f, args, note):
        """-> the states"""
        f, (r, outs) = self.run(d, st, f, args)
        self.rep.count("acceptances")
        if r:
            self.bad(d, f["q"].rsplit("::", 1)[-1], "acceptance", f, "%s is refused" % note)
            return None
        for node, fr, msg in self.outside:
            self.bad(d, f["q"].rsplit("::", 1)[-1], "bounds", fr.fn if fr else f, "%s (%s)" % (msg, note), node)
        return d.value(f, outs)

    def then(self, d, st, f, args, note):
        outs = self.accepted(d, st, f, args, note)
        return st if outs is None else dedup([s for s, v in outs])


def dedup(states):
    out, seen = [], set()
    for s in states:
        for m in (s.c, s.d):
            for k in [k for k in m if k and isinstance(k[0], tuple) and k[0][0] in ("arg", "tmp", "v")]:
                del m[k]
        if s.key() not in seen:
            seen.add(s.key())
            out.append(s)
    return out


def near(r, c):
    s = {(r + 1, c), (r, c + 1), (r - 1, c), (r, c - 1), (c, r), (0, 0), (r + 1, c + 1), (r - 1, c - 1), (r * c, 1), (1, r * c)}
    return sorted((i, j) for i, j in s if i >= 0 and j >= 0 and (i, j) != (r, c))


def column(r):
    return sorted((i, 1) for i in {r - 1, r + 1, 0} if i != r)


# ---- R1
def shapes(c, cls, ctor, n, nt, m, mt, p):
    """the shapes every setter takes, and every blank has"""
    d = c.drive(cls)
    st = d.new(ctor)
    lin = cls == LKF
    mats = {"A": (nt, nt), "C": (mt, nt), "R": (mt, mt), "Q": (nt, nt), "StateCovariance": (nt, nt)}
    if lin:
        mats.update(B=(n, p), D=(m, p))
    note = " (%s with sizes %s)" % (cls.rsplit("::", 1)[-1], ", ".join(map(str, (n, nt, m, mt, p))))
    for k, (r, q) in sorted(mats.items()):
        for i, j in near(r, q):
            c.refused(d, st, "set" + k, [mat("x", i, j)], "set%s with a %dx%d matrix instead of %dx%d%s" % (k, i, j, r, q, note))
        x = mat("x", r, q)
        s2 = c.then(d, st, "set" + k, [x], "set%s with a %dx%d matrix%s" % (k, r, q, note))
        if k not in "BD":
            g = d.method("get" + k, 0)
            c.compare(d, "get" + k, d.call(s2, g), x, g, note)
        l = "P" if k == "StateCovariance" else k
        f = d.method("check%smatrix" % l, 1)
        for i, j in near(r, q) + [(r, q)]:
            truth(c, d, f["q"].rsplit("::", 1)[-1], st, [mat("x", i, j)], (i, j) == (r, q), " for a %dx%d matrix instead of %dx%d%s" % (i, j, r, q, note))
        for kind in ("Constant", "Zero", "Identity"):
            name = "get%smatrix%s" % (l, kind)
            if kind == "Identity" and l in "CBD":
                continue
            g = d.method(name)
            v = sc("value")
            want = M(r, q, v.x * (r * q)) if kind == "Constant" else zero(r, q) if kind == "Zero" else eye(r)
            c.compare(d, name, d.call(st, g, [v] if kind == "Constant" else []), want, g, note)
    vecs = {"state": n, "measure": m, "input": p, "stateTangent": nt, "measureTangent": mt}
    for k, r in sorted(vecs.items()):
        for kind in ("Constant", "Zero"):
            name = "%sVector%s" % (k, kind)
            g = d.method(name)
            v = sc("value")
            c.compare(d, name, d.call(st, g, [v] if kind == "Constant" else []), M(r, 1, v.x * r) if kind == "Constant" else zero(r, 1), g, note)
        name = "check%s%sVector" % (k[0].upper(), k[1:])
        for i in {max(r - 1, 0), r, r + 1, 0}:
            truth(c, d, name, st, [mat("x", i, 1)], i == r, " for a vector of %d instead of %d%s" % (i, r, note))
    st = c.then(d, st, "setState", [mat("x", n, 1), 3], "setState with %d values%s" % (n, note))
    for i, j in column(n):
        c.refused(d, st, "setState", [mat("x", i, 1), 3], "setState with %d values instead of %d%s" % (i, n, note))
        c.refused(d, st, "setCurrentState", [mat("x", i, 1)], "setCurrentState with %d values instead of %d%s" % (i, n, note))
    c.accepted(d, st, "setCurrentState", [mat("x", n, 1)], "setCurrentState with %d values%s" % (n, note))
    for k, r, t in (("Measurement", m, 4), ("Input", p, 3)):
        for s, what in ((st, "first"), (c.then(d, st, "set" + k, [mat("y", r, 1), t], "set%s with %d values%s" % (k, r, note)), "second")):
            t2 = t + (what == "second")
            for i, j in column(r):
                c.refused(d, s, "set" + k, [mat("x", i, 1), t2], "set%s with %d values instead of %d%s" % (k, i, r, note))
                c.refused(d, s, "push" + k, [mat("x", i, 1)], "push%s with %d values instead of %d%s" % (k, i, r, note))
            for name, a in (("set" + k, [mat("x", r, 1), t2]), ("push" + k, [mat("x", r, 1)])):
                s3 = c.then(d, s, name, a, "%s with %d values%s" % (name, r, note))
                g = d.method("get" + k, 1)
                c.compare(d, "get" + k, d.call(s3, g, [t2]), a[0], g, note)
    # sizes
    for k, (r, tan) in (("State", (n, nt)), ("Measure", (m, mt)), ("Input", (p, None))):
        g = d.method("get%sSize" % k, 0)
        c.compare(d, "get%sSize" % k, d.call(st, g), S(r), g, note)
        for r2, t2 in ((r + 1, None), (r + 2, tan and tan + 1)):
            args = [r2] if t2 is None else [r2, t2]
            if t2 is None and k == "Input" and r2 == r + 2 or t2 is not None and lin:
                continue
            s2 = c.then(d, st, d.method("set%sSize" % k, len(args)), args, "set%sSize %s%s" % (k, args, note))
            c.compare(d, "get%sSize" % k, d.call(s2, g), S(r2), g, note)
            if k == "State":
                t = t2 or r2
                for l, sh in (("A", (t, t)), ("C", (mt, t)), ("Q", (t, t)), ("R", (mt, mt))):
                    truth(c, d, "check%smatrix" % l, s2, [mat("x", *sh)], True, " for a %dx%d matrix after setStateSize %s%s" % (sh + (args, note)))
                    if l != "R":
                        truth(c, d, "check%smatrix" % l, s2, [mat("x", *mats[l])], False, " for the former size after setStateSize %s%s" % (args, note))
            if k == "Measure":
                t = t2 or r2
                for l, sh in (("A", (nt, nt)), ("C", (t, nt)), ("R", (t, t))):
                    truth(c, d, "check%smatrix" % l, s2, [mat("x", *sh)], True, " for a %dx%d matrix after setMeasureSize %s%s" % (sh + (args, note)))
                    if l != "A":
                        truth(c, d, "check%smatrix" % l, s2, [mat("x", *mats[l])], False, " for the former size after setMeasureSize %s%s" % (args, note))


PARTS = {"A": (2, 2), "C": (1, 2), "Q": (2, 2), "R": (1, 1), "StateCovariance": (2, 2)}
# what a change of each size forgets
FORGETS = {"State": {"A", "C", "Q", "StateCovariance", "B", "state"}, "Measure": {"C", "R", "D", "measurement"}, "Input": {"B", "D", "input"}}
CLEARS = {"clearA": {"A"}, "clearC": {"C"}, "clearQ": {"Q"}, "clearR": {"R"}, "clearStateCovariance": {"StateCovariance"}, "clearB": {"B"}, "clearD": {"D"},
          "clearStates": {"state", "StateCovariance"}, "clearMeasurements": {"measurement"}, "clearInputs": {"input"},
          "clearInputsAndMeasurements": {"input", "measurement"}, "clearFunctor": {"functor"},
          "reset": {"state", "measurement", "input", "StateCovariance"}}


def functor(dom):
    def h(n, name):
        def f(dom, I, st, node, obj, args, fr):
            if any(k and k[-1] == "f_" and st.c[k] == 0 for k in st.c):
                dom.oob.append((node, fr, "the missing functor is called"))
            return [(st, Val(v=mat(name, n, 1), node=node))]
        return f
    dom.opaque_fns["stateDynamics"] = h(2, "F")
    dom.opaque_fns["measureDynamics"] = h(1, "G")


class Filter:
    def __init__(self, c, cls, tag="a"):
        self.c, self.cls, self.d = c, cls, c.drive(cls)
        self.lin = cls == LKF
        if not self.lin:
            self.d.setup = functor
        self.d.consts = dict(self.d.consts)
        self.parts = list(PARTS) + (["B", "D"] if self.lin else ["functor"]) + ["state", "measurement", "input"]
        self.st = self.d.new([2, 1, 1] if self.lin else [2, 1, 1, True, True])

    def value(self, part, tag):
        r = {"B": (2, 1), "D": (1, 1), "state": (2, 1), "measurement": (1, 1), "input": (1, 1)}.get(part) or PARTS[part]
        return mat("%s.%s" % (part, tag), *r)

    def give(self, st, parts, tag="a"):
        """gives the parts (state, then measurement and input after it)"""
        for k in self.parts:
            if k not in parts:
                continue
            args = [1] if k == "functor" else [self.value(k, tag)]
            args += {"state": [0], "measurement": [1], "input": [0]}.get(k, [])
            name = {"functor": "setDynamicsFunctor" if False else "setFunctor", "state": "setState", "measurement": "setMeasurement", "input": "setInput"}.get(k, "set" + k)
            st = self.c.then(self.d, st, name, args, "%s (giving the parts one by one)" % name)
            if k == "input":
                st = self.c.then(self.d, st, name, [self.value(k, tag + "1"), 1], "%s (giving the parts one by one)" % name)
        return st

    def steps(self, st, note):
        return self.c.accepted(self.d, st, self.d.method("getEstimatedState", 1), [1], "an estimation%s" % note)

    def stops(self, st, part, note):
        self.c.refused(self.d, st, self.d.method("getEstimatedState", 1), [1], "an estimation without %s%s" % (part, note))

    def measured(self, st, D, note):
        """the predicted measurement has or has not the feedthrough of the input"""
        outs = self.steps(st, note)
        if outs is None:
            return
        C, A, B, x, u, u1 = [self.value(*k) for k in (("C", "a"), ("A", "a"), ("B", "a"), ("state", "a"), ("input", "a"), ("input", "a1"))]
        want = mul(C, mul(A, x) + mul(B, u))
        if D:
            want = want + mul(self.value("D", "a"), u1)
        f = self.d.method("getLastPredictedMeasurement", 0)
        self.c.compare(self.d, "predicted measurement", self.d.call([s for s, v in outs], f), want, f, note)


def missing(prog, rep, w):
    cls, op = w
    c = Uses(prog, rep)
    F = Filter(c, cls)
    every = set(F.parts)
    short = cls.rsplit("::", 1)[-1]
    if op is None:
        F.steps(F.give(F.st, every), " with everything given (%s)" % short)
        for k in F.parts:
            if k in ("D",):
                F.measured(F.give(F.st, every - {k}), False, " (%s without D)" % short)
            else:
                F.stops(F.give(F.st, every - {k}), k, " (%s)" % short)
        return
    st = F.give(F.st, every)
    if op in CLEARS:
        gone = CLEARS[op] & every
        st = c.then(F.d, st, op, [], op)
        note = " after %s (%s)" % (op, short)
    else:
        k, tan = op
        gone = FORGETS[k] & every
        size = {"State": 2, "Measure": 1, "Input": 1}[k]
        for v in (size + 1, size):
            args = [v] * (1 + tan) if tan < 2 else [v, size]
            st = c.then(F.d, st, F.d.method("set%sSize" % k, len(args)), args, "set%sSize" % k)
        note = " after a change of the %s size and back (%s)" % (k.lower(), short)
    for k in sorted(gone):
        if k == "D":
            F.measured(F.give(st, gone - {k}), False, note + " without D")
        else:
            F.stops(F.give(st, gone - {k}), k, note)
    s2 = F.give(st, gone)
    if F.lin:
        F.measured(s2, True, note + " with the forgotten parts given again")
    else:
        F.steps(s2, note + " with the forgotten parts given again")


def same_size(prog, rep, w):
    """setting the size it has changes nothing"""
    c = Uses(prog, rep)
    F = Filter(c, w)
    st = F.give(F.st, set(F.parts))
    for k, size in (("State", 2), ("Measure", 1), ("Input", 1)):
        for tan in (0, 1) if not F.lin and k != "Input" else (0,):
            s2 = c.then(F.d, st, F.d.method("set%sSize" % k, 1 + tan), [size] * (1 + tan), "set%sSize" % k)
            note = " after set%sSize with the size in force" % k
            if F.lin:
                F.measured(s2, True, note)
            else:
                F.steps(s2, note)


def no_input(prog, rep, w):
    """a filter without input needs nothing of it"""
    c = Uses(prog, rep)
    F = Filter(c, w)
    F.parts = [k for k in F.parts if k not in ("B", "D", "input")]
    F.st = F.d.new([2, 1, 0] if F.lin else [2, 1])
    F.steps(F.give(F.st, set(F.parts)), " of a filter without input")
    F.st = F.d.new([2, 1, 1] if F.lin else [2, 1, 1, True, True])
    st = c.then(F.d, F.st, "setInputSize", [0], "setInputSize 0")
    F.steps(F.give(st, set(F.parts)), " of a filter whose input was removed")


# ---- R2
def observer_times(prog, rep, w):
    p, direct, paths = w
    c = Uses(prog, rep)
    r = ObsCase(c, p, direct)
    d = r.d
    for path in paths:
        q = r.fork()
        if not all(q.do(op, False) for op in path):
            continue
        rep.count("arrangements")
        m, note = q.m, q.note()

        def no(name, args, what):
            c.refused(d, q.st, d.method(name, len(args)), args, what + note)
        if m.t is None:
            for name, args in (("setCurrentState", [sc("x")]), ("getCurrentTime", []), ("getCurrentEstimatedState", []), ("getEstimatedState", [4])):
                no(name, args, "%s without a state" % name)
        else:
            no("getEstimatedState", [m.t - 1], "an estimation before the current time")
            if m.P is None:
                no("getEstimatedState", [m.t + 1], "an estimation without the covariance of the state")
            else:
                for k in range(m.until() + 1, m.until() + 3):
                    no("getEstimatedState", [k], "an estimation at time %d, beyond the data," % k)
        for n, w, kept in (("Measurement", m.y, m.kept), ("Input", m.u, None)):
            if n == "Input" and not m.p:
                continue
            v = sc("late")
            if kept is not None:
                lo, hi = kept, max(kept, w[0] + len(w[1]) - 1 if w[1] else kept)
            elif w[1]:
                lo, hi = w[0], w[0] + len(w[1]) - 1
            else:
                lo = hi = None
                if m.t is None:
                    no("push" + n, [v], "push%s without a time" % n)
                no("get%sTime" % n, [], "get%sTime with none" % n)
                no("get" + n, [m.t or 3], "get%s with none" % n)
                if m.t is not None:
                    for k in (m.t - 1, m.t, m.t + 2, m.t + 3) if n == "Measurement" else (m.t - 1, m.t + 2, m.t + 3):
                        no("set" + n, [v, k], "the first %s at time %d" % (n.lower(), k))
            if lo is not None:
                for k in (lo - 2, lo - 1, hi + 2, hi + 3):
                    no("set" + n, [v, k], "set%s at time %d with those of times %d to %d" % (n, k, lo, hi))
                for k in (lo - 1, hi + 1):
                    no("get" + n, [k], "get%s at time %d with those of times %d to %d" % (n, k, lo, hi))


def simulator_times(prog, rep, paths):
    c = Uses(prog, rep)
    r = SimCase(c)
    d = r.d
    for path in paths:
        q = r.fork()
        if not all(q.do(op, False) for op in path):
            continue
        rep.count("arrangements")
        m, note = q.m, q.note()

        def no(name, args, what):
            c.refused(d, q.st, d.method(name, len(args)), args, what + note)
        if m.t is not None:
            for k in (m.t - 2, m.t - 1, m.last() + 2, m.last() + 3):
                no("setState", [sc("x"), k], "setState at time %d with those of times %d to %d" % (k, m.t, m.last()))
            no("getState", [m.t - 1], "getState at time %d, before the first" % (m.t - 1))
            no("getMeasurement", [m.t - 1], "getMeasurement at time %d, before the first state" % (m.t - 1))
            if m.input(m.last()) is None:
                no("simulateDynamics", [], "a simulation without input")
                no("getState", [m.last() + 1], "a simulation without input")
                no("getMeasurement", [m.last()], "a simulation without input")
            else:
                s2 = d.states(q.st, d.method("setDynamicsFunctor"), [0])
                c.refused(d, s2, d.method("simulateDynamics"), [], "a simulation without functor" + note)
        for k in range(0, (min(m.u) if m.u else 2)):
            no("getInput", [k], "getInput at time %d, before the first" % k)


# ---- R3
def noises(prog, rep, n):
    c = Uses(prog, rep)
    d = c.drive(N + "GaussianWhiteNoise")

    def value(dom):
        dom.opaque_fns["getGaussianVector"] = lambda dom, I, st, node, obj, args, fr: [(st, Val(v=mat("noise", n, 1), node=node))]
    d.setup = value
    note = " of a noise of dimension %d" % n
    for st, how in ((d.new([n]), ""), (c.then(d, d.new([n + 2]), "setDimension", [n], "setDimension"), " after setDimension")):
        for name, q in (("setStandardDeviation", n), ("setCovarianceMatrix", n), ("setBias", 1), ("getNoisy", 1)):
            if name == "getNoisy":
                continue
            for i, j in near(n, n) if q == n and name != "setBias" else column(n):
                c.refused(d, st, name, [mat("x", i, j)], "%s with %dx%d values%s%s" % (name, i, j, note, how))
            c.accepted(d, st, name, [mat("x", n, q)], "%s with %dx%d values%s%s" % (name, n, q, note, how))
        for i, j in column(n):
            c.refused(d, st, "getNoisy", [mat("x", i, j)], "getNoisy with %d values%s%s" % (i, note, how))
        f = d.method("getDimension")
        c.compare(d, "getDimension", d.call(st, f), S(n), f, note + how)


MODELS = (("IMUDynamicalSystem", 18, 6, "su", "s"), ("IMUMagnetometerDynamicalSystem", 18, 0, "s", "s"), ("IMUMltpctiveDynamicalSystem", 19, 6, "su", "s"),
          ("BidimElasticInvPendulum", 4, 1, "su", ""), ("flexibilityEstimation::IMUFixedContactDynamicalSystem", 18, 15, "s", "su"),
          ("flexibilityEstimation::StableIMUFixedContactDynamicalSystem", 18, 15, "s", "su"))


def models(prog, rep, w):
    name, n, p, state, measure = w
    c = Uses(prog, rep)
    d = c.drive(N + name)
    flex = "Contact" in name
    st = d.new([sc("dt")] if flex else [])
    if not flex:
        st = d.states(st, "setSamplingPeriod", [sc("dt")])
    for f, what in (("getStateSize", n), ("getInputSize", p)):
        g = d.method(f)
        c.compare(d, f, d.call(st, g), S(what), g)
    for f, checks in (("stateDynamics", state), ("measureDynamics", measure)):
        x, u = mat("x", n, 1), mat("u", p, 1)
        if f == "stateDynamics" or "Bidim" not in name:
            c.accepted(d, st, f, [x, u, 3], "%s with %d and %d values" % (f, n, p))
        for i in {n - 1, n + 1, 0} if "s" in checks else ():
            c.refused(d, st, f, [mat("x", i, 1), u, 3], "%s with a state of %d values instead of %d" % (f, i, n))
        for i in {max(p - 1, 0), p + 1, 0} - {p} if "u" in checks else ():
            c.refused(d, st, f, [x, mat("u", i, 1), 3], "%s with an input of %d values instead of %d" % (f, i, p))
    truthy = d.method("checkStateVector"), d.method("checkInputvector")
    for f, r in zip(truthy, (n, p)):
        for i in {max(r - 1, 0), r, r + 1, 0}:
            truth(c, d, f["q"].rsplit("::", 1)[-1], st, [mat("x", i, 1)], i == r, " for %d values instead of %d" % (i, r))
    if not flex:
        return
    for k in range(4):
        s2 = c.then(d, st, "setContactsNumber", [k], "setContactsNumber")
        for i in (k, k + 1, k + 2):
            c.refused(d, s2, "setContactPosition", [i, vec("c")], "the position of contact %d of %d" % (i, k))
        for i in range(k):
            c.accepted(d, s2, "setContactPosition", [i, vec("c")], "the position of contact %d of %d" % (i, k))
        if k:
            s3 = c.then(d, s2, "setContactsNumber", [k - 1], "setContactsNumber")
            c.refused(d, s3, "setContactPosition", [k - 1, vec("c")], "the position of contact %d of %d" % (k - 1, k - 1))


def flexibility(prog, rep, w):
    """measurements, guesses and covariances of the flexibility estimator"""
    c = Uses(prog, rep)
    d = c.drive(N + "flexibilityEstimation::FixedContactEKFFlexEstimatorIMU")
    st = d.new([sc("dt")])
    for i in (5, 7, 0):
        c.refused(d, st, "setMeasurement", [mat("y", i, 1)], "a measurement of %d values" % i)
    c.accepted(d, st, "setMeasurement", [mat("y", 6, 1)], "a measurement of 6 values")
    for i, j in ((5, 1), (17, 1), (3, 3), (4, 3), (6, 6), (1, 6)):
        c.refused(d, st, "setFlexibilityGuess", [mat("x", i, j)], "a guess of %dx%d values" % (i, j))
    for i, j in ((18, 1), (6, 1), (4, 4)):
        c.accepted(d, st, "setFlexibilityGuess", [mat("x", i, j)], "a guess of %dx%d values" % (i, j))
    for i, j in near(6, 6):
        c.refused(d, st, "setMeasurementNoiseCovariance", [mat("R", i, j)], "a covariance of %dx%d values" % (i, j))
    c.accepted(d, st, "setMeasurementNoiseCovariance", [mat("R", 6, 6)], "a covariance of 6x6 values")
    for k in (1, 3):
        s2 = c.then(d, st, "setContactsNumber", [k], "setContactsNumber")
        c.refused(d, s2, "setContactPosition", [k, vec("c")], "the position of contact %d of %d" % (k, k))
        c.accepted(d, s2, "setContactPosition", [k - 1, vec("c")], "the position of contact %d of %d" % (k - 1, k))
        c.refused(d, s2, "setMeasurement", [mat("y", 6 + 3 * k, 1)], "a measurement of %d values" % (6 + 3 * k))
        c.accepted(d, s2, "setMeasurement", [mat("y", 6, 1)], "a measurement of 6 values with %d contacts" % k)


# ---- R4
def kinetics(prog, rep, w):
    nc, ni, present, gone = w
    c = Uses(prog, rep)
    r = Seq(c, nc, ni, None)
    d = r.d
    for i in present:
        r.add(i, cov=False, own=False)
    for i in gone:
        r.drop(i)
    present = [i for i in present if i not in gone]
    from .kinetics import kin, put, POSE, VEL, ALL, CLS
    z = zero(3, 3)
    blk6, v6 = mat("cov", 6, 6), mat("wrench", 6, 1)

    def two(name, n, k=None):
        return d.method(name, n, pick=None if k is None else (lambda f: "Kinematics" in d.prog.type(f["p"][k])["s"]))

    def no(f, args, what):
        c.refused(d, r.st, f, args, what + r.note())

    def yes(f, args, what):
        return c.then(d, r.st, f, args, what + r.note())

    def adds(k, items=POSE):
        t = [put(kin("newpose", items))]
        return [(two("addContact", 6), t + [k, z, z, z, z]), (two("addContact", 8), t + [mat("ci", 12, 12), mat("cq", 12, 12), k, z, z, z, z])]
    for k in range(nc + 2):
        for f, a in adds(k):
            if k in present or k >= nc:
                no(f, a, "adding contact %d of at most %d, %s," % (k, nc, "which exists" if k in present else "beyond the last"))
            else:
                yes(f, a, "adding contact %d of at most %d" % (k, nc))
                for items in (POSE[:1], POSE[1:2], ()):
                    no(*adds(k, items)[f["p"][1]["n"] != "contactNumber"], "adding a contact with a pose of %s" % (" ".join(items) or "nothing"))
    for f, a in adds(-1):
        if len(present) == nc:
            no(f, a, "adding a contact to %d of at most %d" % (nc, nc))
        else:
            yes(f, a, "adding a contact to %d of at most %d" % (len(present), nc))
    local = put(kin("local", VEL))
    for k in range(nc + 2):
        uses = [(two("updateContactWithWrenchSensor", 3), [v6, local, k]), (two("updateContactWithWrenchSensor", 4), [v6, blk6, local, k]),
                (two("updateContactWithNoSensor", 2), [local, k]), (two("removeContact", 1), [k])]
        for name in ("contactIndex", "contactKineIndex", "contactPosIndex", "contactOriIndex", "contactForceIndex", "contactTorqueIndex", "contactWrenchIndex"):
            for t in ("", "Tangent"):
                fs = [f for f in d.prog.methods_of[CLS] if f["q"].rsplit("::", 1)[-1] == name + t and "unsigned" in d.prog.type(f["p"][0])["s"]]
                if not fs:
                    raise AnalysisError("P20: %s%s not found" % (name, t))
                uses.append((fs[0], [k]))
        for name in ("resetStateContactCovMat", "resetProcessContactCovMat"):
            fs = [f for f in d.prog.methods_of[CLS] if f["q"].rsplit("::", 1)[-1] == name and "unsigned" in d.prog.type(f["p"][0])["s"]]
            uses += [(f, [k]) for f in fs[:1]]
        for f, a in uses:
            what = "%s of contact %d of at most %d, of which there are %s" % (f["q"].rsplit("::", 1)[-1], k, nc, list(present))
            (yes if k in present else no)(f, a, what)
    g = put(kin("imu", ALL[:5]))
    ca = mat("ca", 3, 3)
    for k in range(ni + 2):
        for f, a in ((two("setIMU", 4), [vec("acc"), vec("gyr"), g, k]), (two("setIMU", 6), [vec("acc"), vec("gyr"), ca, ca, g, k])):
            what = "setIMU for IMU %d of at most %d" % (k, ni)
            if k >= ni:
                no(f, a, what)
                continue
            st = yes(f, a, what)
            c.refused(d, st, f, a, what + " twice in an iteration" + r.note())
            auto = a[:-1] + [-1]
            (c.refused if ni == 1 else c.accepted)(d, st, f, auto, "another IMU in an iteration, of at most %d" % ni)
            for items in (POSE[:1], POSE[1:2], VEL[2:4]):
                b = list(a)
                b[-2] = put(kin("imu", items))
                no(f, b, what + " with kinematics of %s" % " ".join(items))
        for name in ("gyroBiasIndex", "gyroBiasIndexTangent"):
            f = two(name, 1)
            (yes if k < ni else no)(f, [k], "%s of IMU %d of at most %d" % (name, k, ni))
    for items in (POSE[:1], POSE[1:2], ()):
        a = put(kin("pose", items))
        for f, a in ((two("setAbsolutePoseSensor", 1), [a]), (two("setAbsolutePoseSensor", 2), [a, blk6])):
            outs = c.accepted(d, r.st, f, a, "setAbsolutePoseSensor") if not present else None
            if outs:
                c.refused(d, dedup([s for s, v in outs]), "update", [], "an estimation with an absolute pose of %s" % (" ".join(items) or "nothing"))
    for n in range(len(present) + 1):
        q = r.fork()
        q.box[0] = q
        q.imu(0)
        for i in present[:n]:
            q.contact(i)
        if n == len(present):
            c.accepted(d, q.st, "update", [], "an estimation with the %d contacts updated" % n + q.note())
        else:
            c.refused(d, q.st, "update", [], "an estimation with %d of the %d contacts updated" % (n, len(present)) + q.note())
            for i in present[n:]:
                q.drop(i)
            c.accepted(d, q.st, "update", [], "an estimation with the other contacts removed" + q.note())


# ---- R5
def arrays(prog, rep, w):
    cls, first, n = w
    c = Uses(prog, rep)
    a = ArrCase(c, cls, first, n)
    d, st = a.d, a.st
    x = a.val("x")
    note = " of an " + a.what

    def no(name, args, what, const=None):
        f = d.method(name, len(args)) if const is None else a.both(name, len(args), const)
        c.refused(d, st, f, args, what + note)
    for k in [first - 2, first - 1, first + n, first + n + 1]:
        if k < 0 and first == 0 and k < -1:
            continue
        for const in (True, False):
            no("operator[]", [k], "sample %d" % k, const)
    if n:
        for k in (first - 1, first + n + 1, first + n + 2):
            no("setValue", [x, k], "setValue at %d" % k)
        return
    for name in ("front", "back"):
        for const in (True, False):
            no(name, [], name, const)
    no("popFront", [], "popFront")
    if cls.endswith("1>>"):
        no("checkNext" if False else "operator[]", [first], "sample %d" % first, True)


def indexed(prog, rep, w):
    """an indexed matrix or a checked item gives nothing before it is set, nor after it is reset"""
    c = Uses(prog, rep)
    d = c.drive(w)
    st = d.new([])
    x = mat("x", 2, 1)
    gets = [f for f in d.prog.methods_of[w] + [g for b in d.prog.bases(w) for g in d.prog.methods_of[b]] if f.get("body") is not None
            and f["q"].rsplit("::", 1)[-1] in ("operator()", "getTime", "getRefUnchecked") and not f["p"]]
    gets = [f for f in gets if f["q"].rsplit("::", 1)[-1] != "getRefUnchecked"]
    rep.count("accessors", len(gets))
    for f in gets:
        name = f["q"].rsplit("::", 1)[-1]
        c.refused(d, st, f, [], "%s of a new object" % name)
        s2 = c.then(d, st, "set", [x, 4], "set")
        outs = c.accepted(d, s2, f, [], "%s after set" % name)
        if outs is not None:
            c.compare(d, name, outs, x if name == "operator()" else S(4), f, " after set")
        c.refused(d, c.then(d, s2, "reset", [], "reset"), f, [], "%s after reset" % name)


def work(prog, rep, w):
    kind, w = w
    if kind == "shapes":
        cls, args = w
        n, nt, m, mt, p = args
        if cls == LKF:
            return shapes(Uses(prog, rep), cls, [n, m, p], n, n, m, m, p)
        return shapes(Uses(prog, rep), cls, [n, nt, m, mt, p, True, True] if nt != n or mt != m else [n, m, p, True, True], *args)
    return {"noise": noises, "model": models, "flexibility": flexibility, "kinetics": kinetics, "observer": observer_times, "simulator": simulator_times, "array": arrays, "indexed": indexed, "missing": missing, "same": same_size, "noinput": no_input}[kind](prog, rep, w)


def jobs(tier):
    out = []
    for p, direct in ((0, False), (1, False), (1, True)):
        ps = arrangements(Obs(p, direct), 4 if tier == "quick" else 6)
        out += [("observer", (p, direct, ps[i::20])) for i in range(20)]
    ps = arrangements(Sim(), 4 if tier == "quick" else 6)
    out += [("simulator", ps[i::12]) for i in range(12)]
    out += [("array", (cls, first, n)) for cls in ARRAYS for first in (0, 4) for n in range(4)]
    out += [("indexed", cls) for cls in INDEXED]
    out += [("noise", n) for n in (1, 2, 3)] + [("model", m) for m in MODELS] + [("flexibility", None)]
    out += [("kinetics", (nc, ni, present, ())) for nc, ni in ((2, 2), (1, 1), (4, 2)) for present in ((), (0,), (1,), (0, 1), (0, 2, 3)) if all(i < nc for i in present)]
    out += [("kinetics", (nc, 1, present, gone)) for nc, present, gone in ((2, (0, 1), (0,)), (2, (0, 1), (1,)), (1, (0,), (0,)))]
    for cls in (LKF, EKF):
        out += [("shapes", (cls, a)) for a in ((4, 4, 3, 3, 2), (2, 2, 5, 5, 1)) + (((5, 4, 3, 2, 2), (2, 4, 7, 5, 1)) if cls == EKF else ())]
        out.append(("missing", (cls, None)))
        for k in CLEARS:
            if k in ("clearB", "clearD") and cls == EKF or k == "clearFunctor" and cls == LKF:
                continue
            out.append(("missing", (cls, k)))
        for k in FORGETS:
            out.append(("missing", (cls, (k, 0))))
            if cls == EKF and k != "Input":
                out += [("missing", (cls, (k, 1))), ("missing", (cls, (k, 2)))]
        out += [("same", cls), ("noinput", cls)]
    return out


def run(prog, rep, tier):
    rep.rule("Every wrong use must have no path through it, every right use must have one and no failing assertion.")
    parallel(rep, jobs(tier), lambda rep, t: work(prog, rep, t))
    rep.need("refusals", 100)
    rep.need("decided", 100)
