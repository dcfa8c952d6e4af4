"""P05: evaluating a process or measurement model is a function of its arguments and of the configuration.

For every model class (subclass of the functor interface of the filters) the members that an evaluation may write are
intersected with the members an evaluation may read before having written them.  A non-empty intersection means that the
result of an evaluation can depend on the evaluations made before it, unless the member is a validated keyed memo or a
measurement cache whose validity flag is reset by the sensor state setter.
"""
from ..effects import Effects, prefix
from ..memo import sound_memos
from ..extract import AnalysisError

BASE = "stateObservation::DynamicalSystemFunctorBase"
EVAL = ("stateDynamics", "measureDynamics")

# member path suffix -> reason it cannot carry information from one evaluation to the next
EXEMPT = {
    "IMUElasticLocalFrameDynamicalSystem": {
        "this.printed_": "print-once flag of a diagnostic message: selects no value",
        "this.op_.contactPosV": "indexed scratch, element i stored for every contact before it is read",
        "this.op_.contactOriV": "indexed scratch, element i stored for every contact before it is read",
        "this.op_.contactVelArray": "indexed scratch, element i stored for every contact before it is read",
        "this.op_.contactAngVelArray": "indexed scratch, element i stored for every contact before it is read",
        "this.op_.efforts": "indexed scratch, all modelled contacts stored at the start of an evaluation",
        "this.fc_": "all segments stored from the state at the start of an evaluation",
        "this.tc_": "all segments stored from the state at the start of an evaluation",
        "this.op_.invinertia": "output argument of the inversion by decomposition, wholly written by it",
        "this.op_.sensorState": "all segments stored before it is given to the sensor",
    },
    "KineticsObserver": {
        "this.contacts_.[]": "diagnostic presence flags of the contact objects",
        "this.opt_.kine": "scratch composed at each sensor of an evaluation before being read (presence flags correlate)",
    },
    "*": {
        "this.sensor_.output_": "both halves stored before it is returned",
    },
}
# measurement caches guarded by validity flags (checked below)
CACHES = {"this.sensor_.noiselessMeasurement_": "storedNoiselessMeasurement_",
          "this.sensor_.noisyMeasurement_": "storedNoisyMeasurement_"}


def dotted(p):
    return ".".join(str(x) for x in p)


def run(prog, rep, tier):
    noise = prog.subclasses("stateObservation::NoiseBase")
    eff = Effects(prog, opaque=lambda f: f.get("cls") in noise)
    rep.rule("R1: no member that an evaluation of a model may write is read by an evaluation before it is written, "
             "except keyed memos validated structurally and sensor caches whose flags the state setter resets. "
             "R3: what an evaluation reads is given a value by a constructor or a setter. R2: an evaluation writes no storage outside the model object except through its declared noise/RNG. ")
    nptr = {fl["n"] for r in prog.records.values() for fl in r["fields"]
            if fl.get("t", -1) >= 0 and prog.types[fl["t"]].get("pcls") in noise} if noise else set()
    sensor_ok = sensor_flags(prog, eff, rep)
    classes = sorted(c for c in prog.subclasses(BASE) if c != BASE)
    for c in classes:
        short = c.rsplit("::", 1)[-1]
        sums = []
        for n in EVAL:
            f = None
            for b in prog.bases(c):
                for g in prog.methods_of.get(b, ()):
                    if g["q"].endswith("::" + n) and len(g["p"]) == 3 and g.get("body") is not None:
                        f = g
                        break
                if f:
                    break
            if f is None:
                raise AnalysisError("P05: %s has no %s" % (c, n))
            sums.append((f, eff.summary(f, c)))
            rep.count("evaluations")
        memo, pairs = sound_memos(prog, eff, c)
        for K, V, f in pairs:
            rep.sample("%s: memo %s keyed by %s in %s" % (short, sorted(map(dotted, V)), sorted(map(dotted, K)), f["q"]))
        rep.count("memos", len(pairs))
        ue = {}
        may = {}
        for f, s in sums:
            for p in s.ue:
                ue.setdefault(p, (f, s))
            for p in s.may:
                may.setdefault(p, (f, s))
        rep.count("live_in_members", len([p for p in ue if p[0] == "this"]))
        rep.count("written_members", len([p for p in may if p[0] == "this"]))
        ex = dict(EXEMPT.get("*"))
        ex.update(EXEMPT.get(short, {}))
        done = set()
        for u in sorted(ue, key=str):
            if u[0] != "this" or any(x in nptr for x in u):
                continue        # the attached noise is meant to vary
            for m in may:
                if m[0] != "this" or not (prefix(u, m) or prefix(m, u)):
                    continue
                d = dotted(u)
                if any(prefix(k, u) for k in memo):
                    continue
                if any(d == x or d.startswith(x + ".") for x in ex):
                    continue
                if d in CACHES and sensor_ok:
                    continue
                if d in done:
                    break
                done.add(d)
                fu, su = ue[u]
                fm, sm = may[m]
                rep.bad("history %s %s" % (short, d), su.why.get(("r", u), "?"),
                        "the evaluation of %s may read %s as an earlier evaluation left it (written at %s)" % (
                            fu["q"], d, sm.why.get(("w", m), "?")))
                break
        conf = config_writes(prog, eff, c)
        for u in sorted(ue, key=str):
            if u[0] != "this" or any(prefix(u, m) or prefix(m, u) for m in conf) or any(prefix(m, u) or prefix(u, m) for m in may):
                continue
            rep.bad("notconfigured %s %s" % (short, dotted(u)), ue[u][1].why.get(("r", u), "?"),
                    "the evaluation of %s reads %s, which no constructor or setter of the model gives a value" % (
                        ue[u][0]["q"], dotted(u)))
        for f, s in sums:
            for p in s.may:
                if isinstance(p[0], tuple) and p[0][0] == "g":
                    rep.bad("global %s %s" % (short, dotted(p)), s.why.get(("w", p), "?"),
                            "the evaluation of %s writes the global %s" % (f["q"], dotted(p)))
                if isinstance(p[0], tuple) and p[0][0] == "p":
                    rep.bad("argument %s %s" % (short, dotted(p)), s.why.get(("w", p), "?"),
                            "the evaluation of %s modifies its argument" % f["q"])
    rep.need("evaluations", 3)
    rep.need("written_members", 2)


def config_writes(prog, eff, c):
    """what constructors and configuration functions of class c give a value to"""
    from .initialised import InitEffects
    ini = InitEffects(prog, opaque=eff.opaque)
    out = set()
    for b in prog.bases(c):
        for fl in prog.records.get(b, {}).get("fields", ()):
            if "init" in fl:
                out.add(("this", fl["n"]))
        for f in prog.methods_of.get(b, ()):
            n = f["q"].rsplit("::", 1)[-1]
            if f.get("kind") == "ctor":
                if not f.get("copy") and not f.get("move"):
                    s = ini.summary(f, c)
                    out |= {m for m in s.must | s.may if m[0] == "this"}
            elif not (n in EVAL or n.startswith(("get", "compute")) or "Jacobian" in n or f.get("const")):
                out |= {m for m in eff.summary(f, c).may if m[0] == "this"}
    return out


def sensor_flags(prog, eff, rep):
    """the state setter of the algebraic sensors resets every validity flag, in every class"""
    base = "stateObservation::AlgebraicSensor"
    ok = True
    for c in sorted(prog.subclasses(base)):
        f = None
        for b in prog.bases(c):
            for g in prog.methods_of.get(b, ()):
                if g["q"].endswith("::setState") and g.get("body") is not None:
                    f = f or g
        if f is None:
            raise AnalysisError("P05: no sensor state setter for " + c)
        s = eff.summary(f, c)
        for flag in CACHES.values():
            rep.count("sensor_flags")
            if ("this", flag) not in s.must:
                ok = False
                rep.bad("sensorflag %s %s" % (c, flag), prog.loc(f),
                        "setting the state of the sensor does not always reset %s: the next measurement may be the one "
                        "of an earlier state" % flag)
    return ok
