"""P06: an estimation step uses the state, inputs, measurements, model and noise in force, and nothing left over.

For every filter class the step and the prediction functions are summarised transitively (models and state arithmetics by
their contract: pure evaluation, output argument wholly written).
  R1  what a step reads as an earlier call left it, among what it may itself write, is at most the recursive state
  R2  every datum the filter is defined by is read by the step
  R3  every result the filter exposes is written on every normal exit
"""
from ..effects import Effects, prefix
from ..extract import AnalysisError

ARITH = ("stateSum", "stateDifference", "measurementDifference")
MODEL = ("stateDynamics", "measureDynamics")
KF_STATE = {"x_", "pr_"}

# class -> function -> (carried allowed, must be read, must be written)
KF_READ = {"x_", "pr_", "a_", "c_", "q_", "r_", "y_"}
KF_OUT = {"x_", "pr_", "xbar_", "ybar_", "innovation_", "oc_.kGain"}
SPEC = {
    "ExtendedKalmanFilter": {
        "oneStepEstimation_": (KF_STATE, KF_READ | {"u_", "f_"}, KF_OUT),
        "updateStatePrediction": (set(), {"x_", "u_", "f_"}, {"xbar_"}),
        "updateStateAndMeasurementPrediction": (set(), {"x_", "u_", "f_"}, {"xbar_", "ybar_"}),
        "getAMatrixFD": (set(), {"x_", "u_", "f_"}, {"xbar_"}),
        "getCMatrixFD": (set(), {"x_", "u_", "f_"}, {"xbar_", "ybar_"}),
    },
    "LinearKalmanFilter": {
        "oneStepEstimation_": (KF_STATE, KF_READ | {"u_", "b_", "d_"}, KF_OUT),
        "updateStatePrediction": (set(), {"x_", "u_", "a_", "b_"}, {"xbar_"}),
        "updateStateAndMeasurementPrediction": (set(), {"x_", "u_", "a_", "b_", "c_", "d_"}, {"xbar_", "ybar_"}),
    },
    "TiltEstimator": {
        "oneStepEstimation_": ({"x_", "u_", "y_"}, {"x_", "y_", "dt_", "alpha_", "beta_", "gamma_", "p_S_C_", "R_S_C_", "v_S_C_",
                                                    "w_S_C_", "v_C_"}, {"x_"}),
    },
}
NS = "stateObservation::"


def dotted(p):
    return ".".join(str(x) for x in p[1:])


def under(path, names):
    d = dotted(path)
    return any(d == n or d.startswith(n + ".") for n in names)


def contract(name):
    n = name.rsplit("::", 1)[-1]
    if n in ARITH:
        return {2}
    if n in MODEL:
        return set()
    return None


def method(prog, cls, name):
    for b in prog.bases(cls):
        for g in prog.methods_of.get(b, ()):
            if g["q"].endswith("::" + name) and g.get("body") is not None:
                return g
    return None


def run(prog, rep, tier):
    eff = Effects(prog, skip_assert=True, contract=contract)
    rep.rule("R1: among the members a step (or a prediction, or a finite-difference Jacobian) may write, only the recursive "
             "state is read as left by earlier calls; R2: every datum defining the step is read by it; R3: every exposed "
             "result is written on every exit. Reads in assertions do not count.")
    rep.assumptions += ["models are pure (P05); implementations of the state arithmetics write their output wholly (P07)"]
    for short, fns in SPEC.items():
        cls = NS + short
        if cls not in prog.records:
            raise AnalysisError("P06: class %s not found" % cls)
        for name, (carried, reads, outs) in fns.items():
            f = method(prog, cls, name)
            if f is None:
                raise AnalysisError("P06: %s::%s not found" % (cls, name))
            s = eff.summary(f, cls)
            rep.count("functions")
            tag = "%s::%s" % (short, name)
            for u in sorted(s.ue, key=str):
                if u[0] != "this":
                    continue
                for m in s.may:
                    if m[0] == "this" and (prefix(u, m) or prefix(m, u)) and not under(u, carried):
                        rep.bad("stale %s %s" % (tag, dotted(u)), s.why.get(("r", u), prog.loc(f)),
                                "%s may use %s as an earlier call left it (written at %s)" % (
                                    tag, dotted(u), s.why.get(("w", m), "?")))
                        break
            rep.count("reads", len(s.ue))
            for r in sorted(reads):
                rep.count("required_reads")
                if not any(u[0] == "this" and (under(u, {r})) for u in s.ue):
                    rep.bad("unused %s %s" % (tag, r), prog.loc(f), "%s never reads %s as set: changing it has no effect" % (tag, r))
            for o in sorted(outs):
                rep.count("required_results")
                p = ("this",) + tuple(o.split("."))
                sub = [m for m in s.must if prefix(p, m)]
                if not (any(prefix(m, p) for m in s.must) or any(m[len(p):] in (("v_",), ("v_", "v_")) for m in sub)):
                    rep.bad("notwritten %s %s" % (tag, o), prog.loc(f),
                            "%s can return without having computed %s" % (tag, o))
            rep.sample("%s: reads %d, carried %s" % (tag, len(s.ue), sorted(carried)))
    rep.need("functions", 3)
