"""P04: asking for something changes nothing that any later operation uses.

  R1  a public const member function writes nothing reachable from its object, no global, and not what its arguments
      designate unless the argument is declared non-const
  R2  what a public non-const query may write is read by no other public operation as the query left it
The lazily evaluated getters (the estimate is computed when asked for) are estimation steps, not queries; the conversion memo of
an orientation is covered by its own property.
"""
import re
from ..effects import Effects, prefix
from ..memo import sound_memos
from ..extract import AnalysisError
from .steps import contract
from .history import EXEMPT, BASE

QUERY = re.compile(r"^(get|is|has|toVector|toMatrix|size|check|extract|operator\b)")
# public non-const functions that, by their documentation, run the pending estimations / simulations first
LAZY = {
    "ZeroDelayObserver": {"getEstimatedState", "getSimulatedMeasurement"},
    "DynamicalSystemSimulator": {"getState", "getStateArray", "getMeasurement", "getMeasurementArray"},
    "EKFFlexibilityEstimatorBase": {"getFlexibility", "getFlexibilityVector", "getSimulatedMeasurement", "getForcesAndMoments",
                                    "getForcesSupport1", "getMomentaDotFromForces", "getMomentaDotFromKinematics"},
}
MODEL_OPS = re.compile(r"^(stateDynamics|measureDynamics|set|get|reset|add|remove)")
# results that exist in one place only: the last one asked for is kept there by design
LAST = {"xbar_": "last prediction", "ybar_": "last predicted measurement"}


def dotted(p):
    return ".".join(str(x) for x in p)


def outside(p):
    return isinstance(p[0], tuple) and p[0][0] == "g"


def run(prog, rep, tier):
    eff = Effects(prog, skip_assert=True, contract=contract)
    rep.rule(__doc__.split("\n\n")[1].replace("\n", " "))
    memo_paths = orient_paths(prog)
    done = set()
    for c in sorted(prog.records):
        if not c.startswith("stateObservation::") or "examples" in c or "detail" in c:
            continue
        meths = public(prog, c)
        for f in meths:
            if not f.get("const"):
                continue
            s = eff.summary(f, c)
            rep.count("const_functions")
            for m in sorted(s.may, key=str):
                if m[0] != "this" and not outside(m):
                    continue
                if orient(prog, c, m, memo_paths):
                    continue
                key = "constwrite %s %s" % (f["q"], dotted(m))
                if key not in done:
                    done.add(key)
                    rep.bad(key, s.why.get(("w", m), prog.loc(f)), "the const function %s may write %s" % (f["q"], dotted(m)))
        queries = [f for f in meths if query(prog, c, f)]
        if not queries:
            continue
        model = BASE in prog.bases(c)
        scratch = list(EXEMPT.get(c.rsplit("::", 1)[-1], ())) if model else []
        memo, _ = sound_memos(prog, eff, c)
        for f in queries:
            s = eff.summary(f, c)
            rep.count("nonconst_queries")
            W = [m for m in s.may if (m[0] == "this" or outside(m)) and not any(prefix(k, m) for k in memo)
                 and not any(x in LAST for x in m) and not orient(prog, c, m, memo_paths)]
            if not W:
                continue
            for g in meths:
                if g is f or (model and not MODEL_OPS.match(g["q"].rsplit("::", 1)[-1])):
                    continue
                rep.count("query_operation_pairs")
                t = eff.summary(g, c)
                for u in sorted(t.ue, key=str):
                    if u in t.ret or any(dotted(u).startswith(x) for x in scratch):
                        continue        # hands out a reference / stored anew by every evaluation (P05)
                    hit = next((m for m in W if prefix(m, u) or prefix(u, m)), None)
                    if hit:
                        key = "disturb %s %s" % (f["q"], dotted(u))
                        if key not in done:
                            done.add(key)
                            rep.bad(key, s.why.get(("w", hit), prog.loc(f)),
                                    "%s may write %s, which %s uses (%s)" % (f["q"], dotted(u), g["q"], t.why.get(("r", u), "?")))
    rep.need("const_functions", 100)
    rep.need("nonconst_queries", 5)


def public(prog, c):
    """bodies of the public member functions usable on an object of class c (most derived ones)"""
    out, seen = [], set()
    for b in prog.bases(c):
        acc = {m["usr"]: m["acc"] for m in prog.records[b]["methods"]} if b in prog.records else {}
        for f in prog.methods_of.get(b, ()):
            if f.get("body") is None or f.get("kind") in ("ctor", "dtor") or f.get("static"):
                continue
            if acc.get(f["usr"]) != "public":
                continue
            k = (f["q"].rsplit("::", 1)[-1], len(f["p"]), bool(f.get("const")), tuple(prog.types[p["t"]]["s"] if p.get("t", -1) >= 0 else "" for p in f["p"]))
            if k in seen:
                continue
            seen.add(k)
            out.append(f)
    return out


def query(prog, c, f):
    n = f["q"].rsplit("::", 1)[-1]
    if f.get("const") or not QUERY.match(n) or n.startswith("operator"):
        return False
    for b, names in LAZY.items():
        if n in names and any(x.endswith("::" + b) for x in prog.bases(c)):
            return False
    return True


def orient_paths(prog):
    return {"m_", "q_"}


def orient(prog, c, m, names):
    """m is (part of) one of the two representations inside an Orientation object"""
    cls = c
    for i, x in enumerate(m[1:], 1):
        if x in names and cls == "stateObservation::kine::Orientation":
            return True
        nxt = None
        for b in prog.bases(cls) if cls else ():
            for fl in prog.records.get(b, {}).get("fields", ()):
                if fl["n"] == x and fl.get("t", -1) >= 0:
                    t = prog.types[fl["t"]]
                    nxt = t.get("cls") or t.get("pcls")
        cls = nxt
    # through containers / pointers the class is not followed: accept the exact member chain
    return any(a == "orientation" and b in names for a, b in zip(m[1:], m[2:]))
