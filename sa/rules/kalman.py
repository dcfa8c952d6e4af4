"""P11: a step of a Kalman filter computes the Kalman equations.

The filters are configured through their public setters with distinct matrices, and one estimation step is analysed with matrix value
numbering (matrix expressions are compared in a normal form modulo associativity, distributivity, transposition, symmetry of covariances and
the definition of the inverse; state arithmetics and models are opaque operations).
  R1  prediction, predicted measurement, gain, innovation, estimate and covariance, as the public getters give them after the step, have the
      value numbers of the Kalman equations, with the input and measurement of the right time
  R2  after the step the current time is one more
  R3  the finite-difference Jacobians are the columns of differences of model values, by the increment, at the current state or prediction
  R4  the default state arithmetics are the addition and the difference of vectors
"""
from fractions import Fraction
import itertools
from .. import alg
from ..alg import AlgDomain, P, letter, scal, num, add, mul, transpose, inverse, scale, ZERO, ONE, show
from ..interp import Interp, St, Val
from ..prog import walk
from ..extract import AnalysisError

N = "stateObservation::"
LIN, EKF = N + "LinearKalmanFilter", N + "ExtendedKalmanFilter"
BASE = N + "KalmanFilterBase"
ZDO = N + "ZeroDelayObserver"
FNS = {"stateDynamics": "f", "measureDynamics": "h", "stateSum": "sum", "stateDifference": "diff", "measurementDifference": "mdiff"}


def F(n, *a):
    return letter((n,) + a)


class K:
    def __init__(self, prog, rep, cls):
        self.prog, self.rep, self.cls = prog, rep, cls

    def method(self, name, n=None, const=None, classes=None):
        for c in classes or [self.cls] + list(self.prog.bases(self.cls)):
            fs = [f for f in self.prog.methods_of[c] if f["q"].rsplit("::", 1)[-1] == name and f.get("body") is not None and (n is None or len(f["p"]) == n)]
            if fs:
                return fs[0]
        raise AnalysisError("P11: %s::%s not found" % (self.cls, name))

    def bad(self, key, f, msg):
        self.rep.bad("%s %s" % (self.cls.rsplit("::", 1)[-1], key), "%s:%s" % (f["file"], f["l"]), msg)

    def run(self, states, f, args=()):
        out = []
        for st in states:
            I = Interp(self.prog, AlgDomain(FNS))
            s2 = st.copy()
            vals = []
            for i, a in enumerate(args):
                L = (("arg", i, f["p"][i]["n"]),)
                if isinstance(a, P):
                    s2.d[L] = a
                elif a == "ptr":
                    pass
                else:
                    s2.c[L] = a
            for s, v in I.run(f, s2, cls=self.cls):
                for k in [k for k in list(s.c) if k and isinstance(k[0], tuple) and k[0][0] == "arg"]:
                    del s.c[k]
                for k in [k for k in list(s.d) if k and isinstance(k[0], tuple) and k[0][0] == "arg"]:
                    del s.d[k]
                out.append((s, v))
        return out

    def states(self, states, f, args=()):
        return dedup([s for s, v in self.run(states, f, args)])

    def get(self, st, name, n=0, args=()):
        """the values a getter may return in this state"""
        f = self.method(name, n)
        out = []
        for s, v in self.run([st], f, args):
            x = v.v
            if v.loc is not None:
                x = s.d.get(v.loc)
                if x is None and v.loc in s.c:
                    x = num(s.c[v.loc])
            if x is None and v.c is not None and not isinstance(v.c, bool):
                x = num(v.c)
            out.append(x)
        return f, out

    def same(self, st, name, want, what, case):
        f, got = self.get(st, name)
        for g in got:
            if not isinstance(g, P):
                self.rep.count("undecided")
                continue
            self.rep.count("decided")
            if g != want:
                self.bad(what, f, "%s [%s]: the %s is %s instead of %s" % (self.cls, case, what, show(g)[:400], show(want)[:400]))


def dedup(sts):
    seen, out = set(), []
    for s in sts:
        try:
            k = s.key()
        except TypeError:
            k = id(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def array_of(prog, cls, setter):
    """name of the member array a setter stores into"""
    k = K(prog, None, cls)
    f = k.method(setter)
    for n in walk(f["body"]):
        if n.get("k") == "call" and "IndexedMatrixArrayT" in n.get("f", "") and n.get("f", "").rsplit("::", 1)[-1] in ("setValue", "pushBack"):
            o = n["o"]
            while o.get("k") in ("cast", "paren"):
                o = o["e"]
            if o.get("k") == "mem":
                return o["n"]
    raise AnalysisError("P11: the array %s stores into is not found" % setter)


def setup(prog, rep, cls, ctor_args):
    k = K(prog, rep, cls)
    cs = [f for f in prog.methods_of[cls] if f.get("kind") == "ctor" and len(f["p"]) == len(ctor_args)]
    if not cs:
        raise AnalysisError("P11: no constructor of %s with %d parameters" % (cls, len(ctor_args)))
    sts = k.states([St()], cs[0], ctor_args)
    for m, l in (("setA", "A"), ("setC", "C"), ("setQ", "Q"), ("setR", "R"), ("setStateCovariance", "P")):
        sts = k.states(sts, k.method(m, 1), [letter(l)])
    if cls == LIN:
        for m, l in (("setB", "B"), ("setD", "D")):
            sts = k.states(sts, k.method(m, 1), [letter(l)])
    if cls == EKF:
        sts = k.states(sts, k.method("setFunctor", 1), [1])
    f = k.method("setState", 2)
    sts = k.states(sts, f, [letter("x"), scal("k")])
    return k, sts


def equations(prog, rep, cls, ctor_args, case, uk, uk1):
    """uk, uk1: the input of the prediction and of the predicted measurement (None: none)"""
    k, sts = setup(prog, rep, cls, ctor_args)
    y, u = array_of(prog, ZDO, "setMeasurement"), array_of(prog, ZDO, "setInput")
    A, C, Q, R, Pm, x, kk = (letter(n) for n in ("A", "C", "Q", "R", "P", "x", "k"))
    kk = scal("k")
    k1 = add(kk, ONE)
    step = k.method("oneStepEstimation_", 0)
    outs = k.run(sts, step)
    if not outs:
        raise AnalysisError("P11: no path through the step of %s" % cls)
    rep.count("paths", len(outs))
    for s, v in outs:
        if cls == LIN:
            bf, b = k.get(s, "getB") if has(k, "getB") else (None, [s.d.get(("this", "b_"))])
            df, d = k.get(s, "getD") if has(k, "getD") else (None, [s.d.get(("this", "d_"))])
            B = b[0] if isinstance(b[0], P) else letter("B")
            D = d[0] if isinstance(d[0], P) else letter("D")
            xb = mul(A, x)
            if uk:
                xb = add(xb, mul(B, F("at", u, kk)))
            yb = mul(C, xb)
            cand = [yb]
            if uk1:
                cand = [add(yb, mul(D, F("at", u, k1)))] + ([yb] if D == ZERO or "checkD" else [])
        else:
            U = lambda on, t: F("at", u, t) if on else ZERO
            xb = F("f", x, U(uk, kk), kk)
            cand = [F("h", xb, U(on, k1), k1) for on in ((True, False) if uk1 is None else (uk1,))]
        k.same(s, "getLastPrediction", xb, "prediction", case)
        fy, got = k.get(s, "getLastPredictedMeasurement")
        yb = cand[0]
        for g in got:
            if isinstance(g, P):
                rep.count("decided")
                if g in cand:
                    yb = g
                else:
                    k.bad("predicted measurement", fy, "%s [%s]: the predicted measurement is %s instead of %s" % (cls, case, show(g)[:400], show(cand[0])[:400]))
            else:
                rep.count("undecided")
        pb = add(mul(mul(A, Pm), transpose(A)), Q)
        S = add(mul(mul(C, pb), transpose(C)), R)
        G = mul(mul(pb, transpose(C)), inverse(S))
        inn = mul(G, F("mdiff", F("at", y, k1), yb))
        xh = F("sum", xb, inn)
        Pn = add(pb, mul(mul(G, C), pb), -1)
        k.same(s, "getLastGain", G, "gain", case)
        k.same(s, "getInnovation", inn, "innovation", case)
        k.same(s, "getStateCovariance", Pn, "covariance of the estimate", case)
        k.same(s, "getCurrentEstimatedState", xh, "estimate", case)
        k.same(s, "getCurrentTime", k1, "time of the estimate", case)
        if isinstance(v.v, P):
            rep.count("decided")
            if v.v != xh:
                k.bad("result", step, "%s [%s]: the step returns %s instead of the estimate" % (cls, case, show(v.v)[:300]))


def has(k, name):
    try:
        k.method(name, 0)
        return True
    except AnalysisError:
        return False


def jacobians(prog, rep, flags):
    case = "inputs %s" % (flags,)
    k, sts = setup(prog, rep, EKF, [5, 4, 3, flags[1], flags[0]])
    u = array_of(prog, ZDO, "setInput")
    kk = scal("k")
    k1 = add(kk, ONE)
    x, dx = letter("x"), letter("dx")
    xb = F("f", x, F("at", u, kk) if flags[0] else ZERO, kk)
    for name in ("getAMatrixFD", "getCMatrixFD"):
        f = k.method(name, 1)
        for s, v in k.run(sts, f, [dx]):
            cols = []
            if isinstance(v.v, P) and len(v.v.t) == 1:
                (sc, w), c = next(iter(v.v.t))
                if len(w) == 1 and isinstance(w[0][0], tuple) and w[0][0][0] == "with":
                    cols = [p for p in w[0][0][2:] if p[0][0] == "colv"]
            if not cols:
                rep.count("undecided")
                continue
            for (_, i), val in cols:
                if not isinstance(val, P):
                    rep.count("undecided")
                    continue
                rep.count("decided")
                e = scal(("el", dx, i))
                inc = letter(("with", ZERO, (("el", i), e)))
                if name == "getAMatrixFD":
                    U = F("at", u, kk) if flags[0] else ZERO
                    want = [mul(F("diff", F("f", F("sum", x, inc), U, kk), xb), inverse(e))]
                else:
                    want = []
                    for U in (F("at", u, k1), ZERO):
                        for U2 in (F("at", u, k1), ZERO):
                            want.append(mul(F("mdiff", F("h", F("sum", xb, inc), U, k1), F("h", xb, U2, k1)), inverse(e)))
                if val not in want:
                    k.bad("finite difference " + name, f, "%s: column %s of the Jacobian is %s instead of %s" % (f["q"], show(i), show(val)[:500], show(want[0])[:500]))


def arithmetics(prog, rep):
    C = N + "StateVectorArithmetics"
    k = K(prog, rep, C)
    for name, sg in (("stateSum", 1), ("stateDifference", -1), ("measurementDifference", -1)):
        f = k.method(name, 3)
        st = St()
        Ls = [(("arg", i, p["n"]),) for i, p in enumerate(f["p"])]
        st.d[Ls[0]] = letter("a")
        st.d[Ls[1]] = letter("b")
        I = Interp(prog, AlgDomain({}))
        for s, v in I.run(f, st, cls=C):
            g = s.d.get(Ls[2])
            if not isinstance(g, P):
                rep.count("undecided")
                continue
            rep.count("decided")
            w = add(letter("a"), letter("b"), sg)
            if g != w:
                k.bad("default " + name, f, "%s gives %s instead of %s" % (f["q"], show(g), show(w)))


def run(prog, rep, tier):
    rep.rule(__doc__.split("\n\n")[1].replace("\n", " "))
    alg.SYM.clear()
    alg.SYM.update(["P", "Q", "R"])
    equations(prog, rep, LIN, [5, 4, 3], "with inputs", True, True)
    equations(prog, rep, LIN, [5, 4, 0], "without inputs", False, False)
    for a, b in itertools.product((False, True), repeat=2):
        equations(prog, rep, EKF, [5, 4, 3, b, a], "inputs in the state dynamics %s, in the measurements %s" % (a, b), a, None)
    equations(prog, rep, EKF, [5, 4, 0, False, False], "without inputs", False, False)
    for fl in itertools.product((False, True), repeat=2):
        jacobians(prog, rep, fl)
    arithmetics(prog, rep)
    rep.need("paths", 5)
    rep.need("decided", 40)
