"""P18: every value is the one given for its time.

  R1  time-indexed arrays: from every array (any first index, up to three samples of arbitrary value), every operation gives the array its
      documentation says: samples, their indexes, and the answers of all the accessors
  R2  observers: from every reachable arrangement of state, pending measurements and inputs, every operation leaves the pending data at the
      times they were given for, and an estimation runs one step per instant, each with the input and measurement of its own time
  R3  simulators: states and measurements at every time are those of the functor along the inputs in force
The steps are followed through the source with value numbering (sa/fp.py); the expected result is computed by the small models below.
"""
from ..drive import Drive, Stops
from ..fp import M, S, vec, sc, mat, zero, eye, minverse, same, H
from ..interp import Val
from ..extract import AnalysisError
from ..report import parallel
from .models import Case, noise

N = "stateObservation::"
ARRAYS = (N + "IndexedMatrixArrayT<Eigen::Matrix<double, -1, 1>>", N + "IndexedMatrixArrayT<>")


# ---- R1
class Arr:
    """model of an array; first: None when it is empty and the documentation does not say what comes next"""

    def __init__(self, first, vals):
        self.first, self.vals = first, list(vals)

    def copy(self):
        return Arr(self.first, self.vals)


def truth(c, d, name, st, args, want, note):
    """compares a predicate"""
    f = d.method(name, len(args))
    c.rep.count("cases")
    for s, v in d._run(st, f, args):
        if v.c is None:
            c.rep.count("undecided")
            continue
        c.rep.count("decided")
        if bool(v.c) != bool(want):
            c.bad(d, name, "result", f, "%s is %s%s" % (name, str(bool(v.c)).lower(), note))


class ArrCase:
    def __init__(self, c, cls, first, n):
        self.c, self.d = c, c.drive(cls)
        self.what = "array of %d samples from index %d" % (n, first)
        self.m = Arr(first, [self.val(i) for i in range(n)])
        self.st = self.d.new([])
        for v in self.m.vals:
            self.st = self.d.states(self.st, "pushBack", [v])
        self.st = self.d.states(self.st, "setFirstIndex", [first])
        c.faults(self.d, self.d.method("pushBack"), " (building an array)")

    def val(self, i):
        return mat("v%s" % i, 2, 1)

    def both(self, name, n=None, const=True):
        return self.d.method(name, n, pick=lambda f: bool(f.get("const")) == const)

    def look(self, st, m, note):
        c, d = self.c, self.d
        n = len(m.vals)

        def is_(name, want, args=(), f=None):
            f = f or d.method(name, len(args))
            c.compare(d, name, d.call(st, f, list(args)), want, f, note + (" at index %d" % args[0] if args else ""))
        is_("size", S(n))
        if m.first is not None:
            is_("getNextIndex", S(m.first + n))
            if n:
                is_("getFirstIndex", S(m.first))
                is_("getLastIndex", S(m.first + n - 1))
        for k in range(-1 if m.first is None else m.first - 1, 9 if m.first is None else m.first + n + 1):
            truth(c, d, "checkIndex", st, [k], m.first is not None and m.first <= k < m.first + n, note + " at index %d" % k)
        for i, v in enumerate(m.vals):
            for const in (True, False):
                is_("operator[]", v, [m.first + i], self.both("operator[]", 1, const))
        if n:
            for const in (True, False):
                is_("front", m.vals[0], f=self.both("front", 0, const))
                is_("back", m.vals[-1], f=self.both("back", 0, const))
        f = d.method("getArray")
        for s, L in d.obj(st, "getArray"):
            k = s.c.get(L + ("#size",)) if L else None
            if k is None:
                c.rep.count("undecided")
                continue
            c.rep.count("decided")
            if k != n:
                c.bad(d, "getArray", "size", f, "getArray gives %d samples instead of %d%s" % (k, n, note))
                continue
            for i, v in enumerate(m.vals):
                r = same(s.d.get(L + (("i", i),)), v)
                c.rep.count("undecided" if r is None else "decided")
                if r is False:
                    c.bad(d, "getArray", "sample", f, "sample %d of getArray is not the one of the array%s" % (i, note))
        c.faults(d, f, note, "accessors")

    def op(self, name, args, eff):
        note = " (%s%s on an %s)" % (name, "" if not [a for a in args if isinstance(a, int)] else " %s" % [a for a in args if isinstance(a, int)], self.what)
        m = self.m.copy()
        eff(m)
        try:
            st = self.d.states(self.st, name, args)
        except Stops as e:
            self.c.faults(self.d, self.d.method(name), note, name)
            return
        self.c.faults(self.d, self.d.method(name), note, name)
        self.look(st, m, note)


def array(prog, rep, w):
    cls, first, n = w
    c = Case(prog, rep, "P18")
    a = ArrCase(c, cls, first, n)
    a.look(a.st, a.m, " (an %s)" % a.what)
    x = a.val("x")

    def setv(k):
        def f(m):
            if not m.vals:
                m.first, m.vals = k, [x]
            elif k == m.first + len(m.vals):
                m.vals.append(x)
            else:
                m.vals[k - m.first] = x
        return f
    for k in (range(first, first + n + 1) if n else (0, first, first + 3)):
        a.op("setValue", [x, k], setv(k))
    a.op("pushBack", [x], lambda m: m.vals.append(x))

    def drop(m):
        del m.vals[0]
        m.first += 1
    if n:
        a.op("popFront", [], drop)

    def after(k):
        def f(m):
            m.vals = [v for i, v in enumerate(m.vals) if m.first + i <= k]
            if not m.vals:
                m.first = None
        return f

    def before(k):
        def f(m):
            o = [v for i, v in enumerate(m.vals) if m.first + i >= k]
            m.first = m.first + len(m.vals) - len(o) if o else None
            m.vals = o
        return f
    for k in range(first - 2, first + n + 3):
        a.op("truncateAfter", [k], after(k))
        a.op("truncateBefore", [k], before(k))

    def size(k):
        def f(m):
            m.vals = (m.vals + [x] * k)[:k]
        return f
    for k in range(n + 3):
        a.op("resize", [k, x], size(k))
    for k in (0, 5):
        def first_(m, k=k):
            m.first = k

        def last_(m, k=k):
            m.first = k - len(m.vals) + 1
        a.op("setFirstIndex", [k], first_)
        if n:
            a.op("setLastIndex", [k + n], lambda m, k=k: last_(m, k + n))

    def clear(m):
        m.first += len(m.vals)
        m.vals = []

    def reset(m):
        m.first, m.vals = 0, []
    a.op("clear", [], clear)
    a.op("reset", [], reset)
    # constructors
    f = [f for f in prog.methods_of[cls] if f.get("kind") == "ctor" and len(f["p"]) == 2]
    if f and first:
        st = a.d.new([n, first])
        note = " (constructed with a size and an index)"
        c.compare(a.d, "size", a.d.call(st, "size"), S(n), a.d.method("size"), note)
        c.compare(a.d, "getFirstIndex", a.d.call(st, "getFirstIndex"), S(first), a.d.method("getFirstIndex"), note)


# ---- R2
LKF = N + "LinearKalmanFilter"


class Obs:
    """model of an observer: time, estimate and covariance; measurements and inputs given for later times"""

    def __init__(self, p, direct):
        self.p, self.direct = p, direct
        self.t = self.x = None
        self.P = sc("P")
        self.y, self.u = (0, ()), (0, ())   # (time of the first, values)
        self.kept = None                    # time of a measurement which may still be there
        self.n = 0

    def copy(self):
        o = Obs.__new__(Obs)
        o.__dict__.update(self.__dict__)
        return o

    def shape(self):
        b = self.t if self.t is not None else min([w[0] for w in (self.y, self.u) if w[1]] + [3])
        rel = lambda w: (w[0] - b if w[1] else None, len(w[1]))
        return (self.t is None, self.P is None, rel(self.y), rel(self.u), None if self.kept is None else self.kept - b)

    def new(self, name):
        self.n += 1
        return sc("%s%d" % (name, self.n))

    def until(self):
        """last time which can be estimated"""
        k = self.t
        while True:
            i = k + 1 - self.y[0]
            if not 0 <= i < len(self.y[1]):
                return k
            if self.p and not all(0 <= j - self.u[0] < len(self.u[1]) for j in ((k, k + 1) if self.direct else (k,))):
                return k
            k += 1

    def run(self, k):
        A, B, C, D, Q, R = (sc(n) for n in "ABCDQR")
        while self.t < k:
            t = self.t
            xb = A * self.x
            if self.p:
                xb = xb + B * self.u[1][t - self.u[0]]
            yb = C * xb
            if self.p and self.direct:
                yb = yb + D * self.u[1][t + 1 - self.u[0]]
            Pb = A * self.P * A + Q
            K = Pb * C * minverse(C * Pb * C + R)
            self.x = xb + K * (self.y[1][t + 1 - self.y[0]] - yb)
            self.P = (eye(1) - K * C) * Pb
            self.t = t + 1
            self.kept = t + 1
        self.trim(k + 1, k)

    def trim(self, ky, ku):
        """forgets the measurements before ky and the inputs before ku"""
        for n, k in (("y", ky), ("u", ku)):
            f, w = getattr(self, n)
            w = w[max(0, k - f):]
            setattr(self, n, (max(f, k), w) if w else (0, ()))

    # operations: (name, arguments)
    def ops(self):
        o, m = [], self
        if m.t is None:
            lo = max(m.kept or 0, 0)
            for k in ([3, 4] if not lo else [lo, lo + 1]):
                o.append(("setState", k))
        else:
            o += [("setState", m.t + d) for d in (-1, 0, 1, 2)] + [("setCurrentState",), ("clearStates",)]
            o += [("getEstimatedState", k) for k in range(m.t, (m.until() if m.P is not None else m.t) + 1)]
            if m.P is None:
                o.append(("setStateCovariance",))
            elif not m.y[1] or m.y[0] + len(m.y[1]) - 1 == m.until():
                o.append(("estimateState",))
        for n, w in (("Measurement", m.y), ("Input", m.u)):
            if n == "Input" and not m.p:
                continue
            kept = n == "Measurement" and m.kept is not None
            if w[1]:
                ks = range(w[0], w[0] + len(w[1]) + 1)
            elif m.t is not None:
                ks = [m.t + 1] if n == "Measurement" else [m.t, m.t + 1]
            elif kept:
                ks = [m.kept + 1]
            else:
                ks = [3, 5]
            if len(w[1]) >= 3:
                ks = [k for k in ks if w[0] <= k < w[0] + len(w[1])]
            o += [("set" + n, k) for k in ks]
            if len(w[1]) < 3 and (m.t is not None or w[1] or kept):
                o.append(("push" + n,))
        return o + [("clearMeasurements",), ("clearInputs",), ("clearInputsAndMeasurements",)]

    def do(self, op):
        """-> arguments of the call"""
        name, k = op[0], op[1] if len(op) > 1 else None
        if name == "setState":
            v = self.new("x")
            if self.t is not None and k < self.t:
                self.y, self.u, self.kept = (0, ()), (0, ()), None
            self.t, self.x = k, v
            if self.kept is not None and self.kept <= k:
                self.kept = None
            self.trim(k + 1, k)
            return [v, k]
        if name == "setCurrentState":
            self.x = self.new("x")
            return [self.x]
        if name == "setStateCovariance":
            self.P = self.new("P")
            return [self.P]
        if name == "clearStates":
            self.t = self.x = self.P = None
            return []
        if name in ("getEstimatedState", "estimateState"):
            self.run(k if k is not None else self.until() if self.y[1] else self.t)
            return [k] if k is not None else []
        if name.startswith("clear"):
            if name != "clearInputs":
                self.y, self.kept = (0, ()), None
            if name != "clearMeasurements":
                self.u = (0, ())
            return []
        v = self.new("y" if name.endswith("Measurement") else "u")
        a = "y" if name.endswith("Measurement") else "u"
        f, w = getattr(self, a)
        if name.startswith("push"):
            k = f + len(w) if w else self.t + 1 if a == "y" and self.t is not None else self.kept + 1 if a == "y" else self.t
        if not w:
            f, w = k, (v,)
        else:
            w = w[:k - f] + (v,) + w[k - f + 1:]
        setattr(self, a, (f, w))
        return [v] if name.startswith("push") else [v, k]


def shapes(m, depth):
    """[operations leading to an arrangement], one per arrangement"""
    todo, seen, out = [((), m)], set(), []
    while todo:
        path, m = todo.pop(0)
        s = m.shape()
        if s in seen:
            continue
        seen.add(s)
        out.append(path)
        if len(path) >= depth:
            continue
        for op in m.ops():
            m2 = m.copy()
            m2.do(op)
            todo.append((path + (op,), m2))
    return out


class ObsCase:
    def __init__(self, c, p, direct):
        self.c, self.d, self.m = c, c.drive(LKF), Obs(p, direct)
        d = self.d
        self.st = d.new([1, 1, p])
        for n in "ACQRB" + ("D" if p and direct else ""):
            self.st = d.states(self.st, "set" + n, [sc(n) if n != "B" or p else zero(1, 0)])
        self.st = d.states(self.st, "setStateCovariance", [sc("P")])
        self.said = []
        c.faults(d, d.method("setR"))

    def fork(self):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.m, o.said, o.st = self.m.copy(), list(self.said), [s.copy() for s in self.st]
        return o

    def note(self):
        return " (%d inputs: %s)" % (self.m.p, ", ".join(self.said) or "new")

    def do(self, op, look=True):
        d, c = self.d, self.c
        self.said.append(" ".join(map(str, op)))
        args = self.m.do(op)
        f = d.method(op[0], len(args))
        try:
            if op[0] == "getEstimatedState" and look:
                c.compare(d, op[0], d.call(self.st, f, args), self.m.x, f, self.note())
            if op[0] == "estimateState" and look:
                c.compare(d, op[0], d.call(self.st, f, args), S(self.m.t), f, self.note())
            self.st = d.states(self.st, f, args)
        except Stops:
            c.faults(d, f, self.note(), op[0])
            return False
        c.faults(d, f, self.note(), op[0])
        if look:
            self.look()
        return True

    def look(self):
        c, d, m = self.c, self.d, self.m

        def is_(name, want, args=()):
            f = d.method(name, len(args))
            c.compare(d, name, d.call(self.st, f, list(args)), want, f, self.note())
        truth(c, d, "stateIsSet", self.st, [], m.t is not None, self.note())
        if m.t is not None:
            is_("getCurrentTime", S(m.t))
            is_("getCurrentEstimatedState", m.x)
            is_("getStateCovariance", zero(0, 0) if m.P is None else m.P)
        for n, (f, w), kept in (("Measurement", m.y, m.kept is not None), ("Input", m.u, False)):
            if w:
                is_("get%sTime" % n, S(f + len(w) - 1))
            if not kept:
                is_("get%ssNumber" % n, S(len(w)))
            for i, v in enumerate(w):
                is_("get" + n, v, [f + i])


def observer(prog, rep, w):
    p, direct, paths = w
    explore(rep, ObsCase(Case(prog, rep, "P18"), p, direct), paths)


def explore(rep, r, paths):
    for path in paths:
        q = r.fork()
        if not all(q.do(op, False) for op in path):
            continue
        rep.count("arrangements")
        if not path:
            q.look()
        for op in q.m.ops():
            rep.count("operations")
            q.fork().do(op)


def observers(tier):
    out = []
    for p, direct in ((0, False), (1, False), (1, True)):
        ps = shapes(Obs(p, direct), 5 if tier == "quick" else 7)
        out += [("observer", (p, direct, ps[i::40])) for i in range(40)]
    return out


# ---- R3
SIM = N + "DynamicalSystemSimulator"


def step(name, x, u, k):
    return M(1, 1, [H(name, x.x, u.x, (k,))], p=x.p | u.p)


class Sim:
    """model of a simulator: the states from the first time, the measurements which were simulated, the inputs given"""

    def __init__(self):
        self.clear()
        self.n = 0

    def clear(self):
        self.t, self.x, self.y, self.u = None, (), (), {}

    def copy(self):
        o = Sim()
        o.__dict__.update(self.__dict__)
        o.u = dict(self.u)
        return o

    def shape(self):
        b = self.t if self.t is not None else 0
        return (self.t, len(self.x), len(self.y), tuple(sorted(k - b for k in self.u)))

    def input(self, k):
        ks = [i for i in self.u if i <= k]
        return self.u[max(ks)] if ks else None

    def last(self):
        return self.t + len(self.x) - 1

    def to(self, k):
        while self.last() < k:
            i = self.last()
            u = self.input(i)
            self.y = self.y[:i - self.t] + (step("G", self.x[-1], u, i),)
            self.x += (step("F", self.x[-1], u, i),)

    def ops(self):
        o = []
        if self.t is None:
            o += [("setState", 0), ("setState", 2)]
        else:
            now = self.last()
            o += [("setState", k) for k in range(self.t, now + 1)]
            if self.input(now) is not None:
                ks = range(self.t, now + 3)
                o += [("simulateDynamics",)] + [("simulateDynamicsTo", k) for k in ks]
                o += [("getState", k) for k in ks] + [("getMeasurement", k) for k in ks]
                o += [("getStateArray", k, 2) for k in ks if k > self.t] + [("getMeasurementArray", k, 2) for k in ks if k > self.t]
            o.append(("resetDynamics",))
        b = self.last() if self.t is not None else 0
        return [w for w in o + [("setInput", k) for k in (b, b + 1, b + 3)] if len(self.x) <= 4]

    def do(self, op):
        name, a = op[0], list(op[1:])
        self.n += 1
        if name == "setState":
            v = sc("x%d" % self.n)
            k = a[0]
            if self.t is None:
                self.t = k
            self.x = self.x[:k - self.t] + (v,)
            self.y = self.y[:k - self.t]
            return [v, k]
        if name == "setInput":
            v = sc("u%d" % self.n)
            self.u[a[0]] = v
            return [v, a[0]]
        if name == "resetDynamics":
            self.clear()
        if name == "simulateDynamics":
            self.to(self.last() + 1)
        if name in ("simulateDynamicsTo", "getState"):
            self.to(a[0])
        if name == "getMeasurement":
            self.to(a[0] + 1)
        if name == "getStateArray":
            self.to(a[0] + a[1] - 1)
        if name == "getMeasurementArray":
            self.to(a[0] + a[1])
        return a


def functor(dom):
    def h(name):
        def f(dom, I, st, node, obj, args, fr):
            x, u = [I.rv(st, a, n, fr).v for a, n in zip(args[:2], node["a"])]
            k = I.index(st, args[2], node["a"][2], fr)
            ok = isinstance(x, M) and x.known() and isinstance(u, M) and u.known() and k is not None
            return [(st, Val(v=step(name, x, u, k) if ok else M(1, 1, [None]), node=node))]
        return f
    dom.opaque_fns["stateDynamics"] = h("F")
    dom.opaque_fns["measureDynamics"] = h("G")


class SimCase:
    def __init__(self, c):
        self.c, self.d, self.m = c, c.drive(SIM), Sim()
        self.d.setup = functor
        self.st = self.d.states(self.d.new([]), "setDynamicsFunctor", [1])
        self.said = []

    fork = ObsCase.fork

    def note(self):
        return " (%s)" % (", ".join(self.said) or "new")

    def do(self, op, look=True):
        d, c, m = self.d, self.c, self.m
        self.said.append(" ".join(map(str, op)))
        old = set(m.u)
        args = m.do(op)
        f = d.method(op[0], len(args))
        try:
            if look and op[0] in ("getState", "getMeasurement"):
                c.compare(d, op[0], d.call(self.st, f, args), (m.x if op[0] == "getState" else m.y)[op[1] - m.t], f, self.note())
            if look and op[0].endswith("Array"):
                self.array(f, args)
            self.st = d.states(self.st, f, args)
        except Stops:
            c.faults(d, f, self.note(), op[0])
            return False
        c.faults(d, f, self.note(), op[0])
        if look:
            self.look()
            g = d.method("getInput", 1)
            for k in sorted(old - set(m.u)):
                try:
                    got = [v for s, v in d.call(self.st, g, [k]) if v is not None]
                except Stops:
                    got = []
                del d.oob[:], d.fails[:]
                c.rep.count("decided")
                if got:
                    c.bad(d, op[0], "forgotten", f, "%s leaves an input from before%s" % (op[0], self.note()))
        return True

    def array(self, f, args):
        d, c, m = self.d, self.c, self.m
        cls = ARRAYS[0] if ARRAYS[0] in d.prog.methods_of else ARRAYS[1]
        k0 = args[0]
        for s, L in d.obj(self.st, f, args):
            if L is None:
                c.rep.count("undecided")
                continue
            for k in range(k0, k0 + args[1]):
                g = d.sub(cls, "operator[]", 1)
                c.compare(d, f["q"].rsplit("::", 1)[-1], d.call_on(s, L, g, [k]), (m.x if "State" in f["q"] else m.y)[k - m.t], f, self.note() + " at time %d" % k)

    def look(self):
        c, d, m = self.c, self.d, self.m

        def is_(name, want, args=()):
            f = d.method(name, len(args))
            try:
                c.compare(d, name, d.call(self.st, f, list(args)), want, f, self.note())
            finally:
                c.faults(d, f, self.note(), name)
        if m.t is not None:
            is_("getCurrentTime", S(m.last()))
            is_("getCurrentState", m.x[-1])
            for k in range(m.t, m.last() + 1):
                is_("getState", m.x[k - m.t], [k])
            for k in range(m.t, m.t + len(m.y)):
                is_("getMeasurement", m.y[k - m.t], [k])
        for k in sorted(set(m.u) | {i + 1 for i in m.u}):
            is_("getInput", m.input(k), [k])


def simulator(prog, rep, paths):
    explore(rep, SimCase(Case(prog, rep, "P18")), paths)


def run(prog, rep, tier):
    rep.rule("After every operation from every arrangement, every accessor must give the value and index of the model of the documentation.")
    tasks = [("array", (cls, first, n)) for cls in ARRAYS for first in (0, 4) for n in range(4)]
    if not all(c in prog.methods_of for c in ARRAYS):
        raise AnalysisError("P18: the time-indexed arrays were not found")
    tasks += observers(tier)
    ps = shapes(Sim(), 4 if tier == "quick" else 7)
    tasks += [("simulator", ps[i::24]) for i in range(24)]
    parallel(rep, tasks, lambda rep, t: globals()[t[0]](prog, rep, t[1]))
    rep.need("decided", 500)
