"""P10: the rigid-body helper functions combine the right quantities.

Every free helper that integrates, differentiates, inverts or converts poses and motions is analysed with its arguments seeded by
distinct labels and frames.  The provenance of every result (which argument, multiplicity, power of the time step, rotation and
frame, place in the vector or matrix) is compared with what the mechanics of a rigid body give.
  R1  every output argument and result has the provenance the helper is for
  R2  quantities of different frames are never added, and rotations are composed and applied in matching frames
"""
from fractions import Fraction as Fr
from ..interp import Interp, St, Val
from ..frames import JUNK
from ..prov import ProvDomain, Q, lab, ZERO, mono, show, places
from ..extract import AnalysisError
from .kinematics import D, rank

N = "stateObservation::kine::"
T = "stateObservation::tools::"
I1 = ("dt", -1)


def isrot(t):
    return "Quaternion" in (t.get("cls") or "") + t["s"] or (t.get("rows"), t.get("cols")) == (3, 3)


def V(l, f):
    return lab(l, ("V", f))


def R(l, a, b):
    return lab(l, ("R", a, b))


class C:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.n = 0

    def fns(self, q, n=None, least=1):
        fs = [f for f in self.prog.by_name.get(q, []) if f.get("body") is not None and (n is None or len(f["p"]) == n)]
        if len(fs) < least:
            raise AnalysisError("P10: %s not found" % q)
        return fs

    def run(self, f, args):
        """args: one entry per parameter: value, or {region: value} for parts of a vector or matrix"""
        st = St()
        locs = []
        for i, p in enumerate(f["p"]):
            L = (("arg", i, p["n"]),)
            locs.append(L)
            a = args[i]
            if isinstance(a, dict):
                for rg, v in a.items():
                    st.d[L + (("seg",) + rg,)] = v
            elif a is not None:
                st.d[L] = a
        dom = ProvDomain(rank)
        dom.dims = lambda I, val, r, c: (18, 1) if f["q"].endswith("invertState") else (r, c)
        I = Interp(self.prog, dom)
        outs = I.run(f, st)
        self.rep.count("functions")
        for node, fr, msg in dom.errors:
            self.bad(f, "frames", msg, node)
        if not outs:
            raise AnalysisError("P10: no path through %s" % f["q"])
        return [(s, v, locs) for s, v in outs]

    def sig(self, f):
        return f["q"].rsplit("::", 1)[-1] + "/%d" % len(f["p"])

    def bad(self, f, kind, msg, node=None):
        self.rep.bad("%s %s(%s)" % (kind, f["q"].rsplit("::", 1)[-1], ",".join(self.prog.type(p)["s"].replace("const ", "").replace(" &", "").split("::")[-1] for p in f["p"])),
                     "%s:%s" % (f["file"], (node or {}).get("l", f["l"])), msg)

    def val(self, f, what, v, want, F=None):
        if v == JUNK:
            self.bad(f, what, "%s is never given a value" % what)
        elif not isinstance(v, Q):
            self.rep.count("undecided")
        else:
            self.rep.count("decided")
            self.rep.sample("%s: %s = %s" % (f["q"], what, show(v.D)))
            if v.D != want:
                self.bad(f, what, "%s is made of [%s] instead of [%s]" % (what, show(v.D), show(want)))
            elif F is not None and v.F is not None and v.F != F and v.D:
                self.bad(f, what, "%s is in frame %s instead of %s" % (what, v.F, F))

    def out(self, f, s, L, what, want, F=None):
        self.val(f, what, s.d.get(L), want, F)

    def segs(self, f, v, want, what="result"):
        """want: {region: (name, provenance)}"""
        if not (isinstance(v, tuple) and v and v[0] == "segs"):
            self.rep.count("undecided", len(want))
            return
        got = dict(v[1])
        if not got:
            self.rep.count("undecided", len(want))
            return
        matched, und, msg = places(v, want)
        self.rep.count("undecided", len(und))
        if msg:
            self.bad(f, what, msg)
        for rg, x in matched.items():
            w = want[rg]
            self.val(f, w[0], x, w[1], w[2] if len(w) > 2 else None)


def groups(prog, f):
    """(x, v[, a]) groups of an integration function, dt excluded"""
    out = []
    ps = f["p"][:-1]
    for i, p in enumerate(ps):
        if i == 0 or isrot(prog.type(p)):
            out.append([i])
        else:
            out[-1].append(i)
    return out


def run(prog, rep, tier):
    rep.rule(__doc__.split("\n\n")[1].replace("\n", " "))
    c = C(prog, rep)
    # integration
    for f in c.fns(N + "integrateKinematics", least=6):
        args = [None] * len(f["p"])
        args[-1] = lab("dt")
        spec = []
        for g in groups(prog, f):
            rot = isrot(prog.type(f["p"][g[0]]))
            x, v, a = ("t.R", "t.w", "t.dw") if rot else ("t.p", "t.v", "t.a")
            args[g[0]] = R(x, "A", "B") if rot else V(x, "A")
            args[g[1]] = V(v, "A")
            px = [(1, x), (1, v, "dt")]
            pv = [(1, v)]
            if len(g) == 3:
                args[g[2]] = V(a, "A")
                px.append((Fr(1, 2), a, "dt", "dt"))
                pv.append((1, a, "dt"))
                spec.append((g[2], D((1, a)), ("V", "A")))
            elif len(g) != 2:
                raise AnalysisError("P10: unexpected signature of %s" % f["q"])
            spec.append((g[0], D(*px), ("R", "A'", "B") if rot else ("V", "A")))
            spec.append((g[1], D(*pv), ("V", "A")))
        for s, r, L in c.run(f, args):
            for i, w, F in spec:
                c.out(f, s, L[i], f["p"][i]["n"], w, F)
    # finite differences
    FD = D((1, "n.x", I1), (-1, "t.x", I1))
    for f in c.fns(T + "derivate"):
        for s, v, L in c.run(f, [V("t.x", "A"), V("n.x", "A"), lab("dt")]):
            c.val(f, "result", v.v, FD)
    for f in c.fns(N + "derivateRotationFD", least=2):
        rot = isrot(prog.type(f["p"][0]))
        a = [R("t.x", "A", "B"), R("n.x", "N", "B")] if rot else [V("t.x", None), V("n.x", None)]
        if not rot:
            a = [lab("t.x"), lab("n.x")]
        for s, v, L in c.run(f, a + [lab("dt")]):
            c.val(f, "result", v.v, FD)
    TOP, BOT = (0, 0, 3, 1), (3, 0, 3, 1)
    ROT, TR = (0, 0, 3, 3), (0, 3, 3, 1)
    fd = {TOP: ("linear velocity", D((1, "n.p", I1), (-1, "t.p", I1))), BOT: ("angular velocity", D((1, "n.R", I1), (-1, "t.R", I1)))}
    for f in c.fns(N + "derivateHomogeneousMatrixFD"):
        for s, v, L in c.run(f, [{ROT: R("t.R", "A", "B"), TR: V("t.p", "A")}, {ROT: R("n.R", "N", "B"), TR: V("n.p", "A")}, lab("dt")]):
            c.segs(f, v.v, fd)
    for f in c.fns(N + "derivatePoseThetaUFD"):
        for s, v, L in c.run(f, [{TOP: V("t.p", "A"), BOT: lab("t.R")}, {TOP: V("n.p", "A"), BOT: lab("n.R")}, lab("dt")]):
            c.segs(f, v.v, fd)
    # conversions of poses
    for f in c.fns(N + "homogeneousMatrixToVector6"):
        for s, v, L in c.run(f, [{ROT: R("t.R", "A", "B"), TR: V("t.p", "A")}]):
            c.segs(f, v.v, {TOP: ("position", D((1, "t.p"))), BOT: ("rotation vector", D((1, "t.R")))})
    for f in c.fns(N + "vector6ToHomogeneousMatrix"):
        for s, v, L in c.run(f, [{TOP: V("t.p", "A"), BOT: lab("t.R")}]):
            c.segs(f, v.v, {TR: ("position", D((1, "t.p"))), ROT: ("rotation", D((1, "t.R")))})
    RT = (("R", "t.R"), -1)
    for f in c.fns(N + "invertHomoMatrix"):
        for s, v, L in c.run(f, [{ROT: R("t.R", "A", "B"), TR: V("t.p", "A")}]):
            c.segs(f, v.v, {TR: ("position", D((-1, RT, "t.p")), ("V", "B")), ROT: ("rotation", D((-1, "t.R")), ("R", "B", "A"))})
    # inversion of a complete motion state
    ix = {}
    for n in ("pos", "ori", "linVel", "angVel", "linAcc", "angAcc"):
        q = N + "indexes::" + n
        v = [g for (k, _, _), g in prog.globals.items() if k.endswith("::" + n) and "indexes<" in k and ("rotationVector" in k or "<0>" in k)]
        x = None
        for g in v:
            x = g.get("cv", (g.get("init") or {}).get("v"))
        ix[n] = x
    if any(v is None for v in ix.values()):
        ix = {"pos": 0, "ori": 3, "linVel": 6, "angVel": 9, "linAcc": 12, "angAcc": 15}
    sg = lambda n: (ix[n], 0, 3, 1)
    for f in c.fns(N + "invertState"):
        a = {sg("pos"): V("t.p", "A"), sg("ori"): R("t.R", "A", "B"), sg("linVel"): V("t.v", "A"), sg("angVel"): V("t.w", "A"),
             sg("linAcc"): V("t.a", "A"), sg("angAcc"): V("t.dw", "A")}
        w = {sg("ori"): ("orientation", D((-1, "t.R"))),
             sg("angVel"): ("angular velocity", D((-1, RT, "t.w"))),
             sg("angAcc"): ("angular acceleration", D((-1, RT, "t.dw"))),
             sg("pos"): ("position", D((-1, RT, "t.p"))),
             sg("linVel"): ("linear velocity", D((1, RT, "t.w", "t.p"), (-1, RT, "t.v"))),
             sg("linAcc"): ("linear acceleration", D((2, RT, "t.w", "t.v"), (-1, RT, "t.w", "t.w", "t.p"), (-1, RT, "t.a"), (1, RT, "t.dw", "t.p")))}
        for s, v, L in c.run(f, [a]):
            c.segs(f, v.v, w)
    # motion of a body with a fixed point
    RA = (("R", "t.R"), 1)
    for f in c.fns(N + "fixedPointRotationToTranslation"):
        a = [R("t.R", "A", "A"), V("t.w", "A"), V("t.dw", "A"), V("f.p", "A"), JUNK, JUNK, JUNK]
        w = [D((1, "f.p"), (-1, RA, "f.p")), D((-1, "t.w", RA, "f.p")), D((-1, "t.w", "t.w", RA, "f.p"), (-1, "t.dw", RA, "f.p"))]
        for s, v, L in c.run(f, a):
            for i in range(3):
                c.out(f, s, L[4 + i], f["p"][4 + i]["n"], w[i], ("V", "A"))
    # cross-product matrix, element by element
    el = lambda i: ("seg", i, 0, 1, 1)
    sk = {(0, 1): (-1, 2), (1, 0): (1, 2), (0, 2): (1, 1), (2, 0): (-1, 1), (1, 2): (-1, 0), (2, 1): (1, 0)}
    for f in c.fns(N + "skewSymmetric", n=2):
        for s, v, L in c.run(f, [Q(("vector",), {}), None]):
            w = {(i, j, 1, 1): ("element %d,%d" % (i, j), D((sk[i, j][0], el(sk[i, j][1]))) if i != j else frozenset()) for i in range(3) for j in range(3)}
            c.segs(f, v.v, w)
            dom = ProvDomain(rank)
            c.segs(f, ("segs", frozenset(dom.parts(s, L[1])), None), w, "output argument")
    rep.need("functions", 8)
    rep.need("decided", 25)
