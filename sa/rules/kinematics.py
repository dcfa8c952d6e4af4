"""P09: operations on kinematics give every derivable quantity from the right quantities, and only from those that are set.

Every operation of the rigid-body kinematics class (composition, inversion, integration, update from a new sample, conversion to
and from a vector) is analysed for every combination of quantities set in its operands and of requested quantities.  A value is
abstracted by its provenance: which input quantities it is made of, with which multiplicity, power of the time step and frame.
  R1  a quantity that is not set is never used
  R2  after the operation exactly the quantities that can be derived are set
  R3  every quantity that is set after the operation has the provenance that the mechanics of a rigid body give
  R4  the vector form lists the requested quantities contiguously in the documented order, and is read back in the same places
"""
import itertools
from fractions import Fraction as Fr
from ..interp import Interp, St, Val
from ..frames import JUNK, ERR
from ..prov import ProvDomain, Q, lab, ZERO, mono, show, num, places
from ..extract import AnalysisError
from ..report import parallel

K = "stateObservation::kine::Kinematics"
CHECKED = ("stateObservation::CheckedItem", "stateObservation::kine::Orientation")
ITEMS = ("position", "orientation", "linVel", "angVel", "linAcc", "angAcc")
SHORT = dict(position="p", orientation="R", linVel="v", angVel="w", linAcc="a", angAcc="dw")
SIZE = dict(position=3, orientation=4, linVel=3, angVel=3, linAcc=3, angAcc=3)


def rank(l):
    """cross products: angular before linear, first operand before second"""
    if isinstance(l, str) and "." in l:
        o, n = l.split(".")
        return (0 if n in ("w", "dw") else 1, o)
    return (9, str(l))


def key(L, it, rep="m_"):
    if it == "orientation":
        return L + (it, rep)
    return L + (it,)


def seed(st, L, who, items, RF, VF):
    for it in ITEMS:
        on = it in items
        if it == "orientation":
            for r in ("m_", "q_"):
                s = on and r == "m_"
                st.c[L + (it, r, "isSet_", "b_")] = s
                st.d[L + (it, r, "v_")] = lab(who + ".R", RF) if s else JUNK
        else:
            st.c[L + (it, "isSet_", "b_")] = on
            st.d[L + (it, "v_")] = lab(who + "." + SHORT[it], ("V", VF)) if on else JUNK


def state_of(s, L):
    """item -> (set?, value or None)"""
    out = {}
    for it in ITEMS:
        if it == "orientation":
            f = [s.c.get(L + (it, r, "isSet_", "b_")) for r in ("m_", "q_")]
            on = True if True in f else None if None in f else False
            v = None
            for r, b in zip(("m_", "q_"), f):
                if b and v is None:
                    v = s.d.get(L + (it, r, "v_"))
            out[it] = (on, v)
        else:
            out[it] = (s.c.get(L + (it, "isSet_", "b_")), s.d.get(L + (it, "v_")))
    return out


class Dom(ProvDomain):
    size = None

    def ext(self, I, st, node, name, obj, args, fr):
        if name.endswith("::size") and obj is not None and self.size is not None and obj.loc and obj.loc[0][0] == "arg":
            return Val(c=self.size, node=node)
        return super().ext(I, st, node, name, obj, args, fr)

    def assert_fails(self, I, node, fr):
        if any((fr.fn.get("cls") or "").startswith(c) for c in CHECKED):
            super().assert_fails(I, node, fr)


def D(*terms):
    """D((coef, label, label, ...), ...) -> provenance"""
    m = {}
    for t in terms:
        k = mono(*t[1:])
        m[k] = m.get(k, 0) + Fr(t[0])
    return frozenset((k, c) for k, c in m.items() if c)


# ---- what rigid-body mechanics give
R1 = (("R", "1.R"), 1)
RT = (("R", "t.R"), -1)


def product_spec(one, two):
    """pose 1 is frame B in A, 2 is frame C in B -> frame C in A"""
    out = {}
    if {"position"} <= one and "position" in two:
        out["position"] = D((1, "1.p"), (1, R1, "2.p"))
        if {"linVel", "angVel"} <= one and "linVel" in two:
            out["linVel"] = D((1, "1.v"), (1, "1.w", R1, "2.p"), (1, R1, "2.v"))
            if {"linAcc", "angAcc"} <= one and "linAcc" in two:
                out["linAcc"] = D((1, "1.a"), (1, "1.dw", R1, "2.p"), (1, "1.w", "1.w", R1, "2.p"), (2, "1.w", R1, "2.v"), (1, R1, "2.a"))
    if "orientation" in two:
        out["orientation"] = D((1, "1.R"), (1, "2.R"))
        if "angVel" in one and "angVel" in two:
            out["angVel"] = D((1, "1.w"), (1, R1, "2.w"))
            if "angAcc" in one and "angAcc" in two:
                out["angAcc"] = D((1, "1.dw"), (1, "1.w", R1, "2.w"), (1, R1, "2.dw"))
    return out


def inverse_spec(k):
    out = {"orientation": D((-1, "t.R"))}
    if "angVel" in k:
        out["angVel"] = D((-1, RT, "t.w"))
        if "angAcc" in k:
            out["angAcc"] = D((-1, RT, "t.dw"))
    if "position" in k:
        out["position"] = D((-1, RT, "t.p"))
        if {"linVel", "angVel"} <= k:
            out["linVel"] = D((1, RT, "t.w", "t.p"), (-1, RT, "t.v"))
            if {"linAcc", "angAcc"} <= k:
                out["linAcc"] = D((2, RT, "t.w", "t.v"), (-1, RT, "t.w", "t.w", "t.p"), (-1, RT, "t.a"), (1, RT, "t.dw", "t.p"))
    return out


def chain_integrate(k, names, labs):
    """integration over dt of a (position, velocity, acceleration) chain"""
    x, v, a = names
    lx, lv, la = labs
    out = {}
    if x in k:
        t = [(1, lx)]
        if v in k:
            t.append((1, lv, "dt"))
            if a in k:
                t.append((Fr(1, 2), la, "dt", "dt"))
        out[x] = D(*t)
    if v in k:
        out[v] = D((1, lv), (1, la, "dt")) if a in k else D((1, lv))
    if a in k:
        out[a] = D((1, la))
    return out


LIN = ("position", "linVel", "linAcc")
ANG = ("orientation", "angVel", "angAcc")
I1 = ("dt", -1)
I2 = ("dt", -2)


def update_spec(this, new, flags, names, l):
    """None when the request cannot be satisfied (a documented precondition)"""
    x, v, a = names
    T = lambda n: "t." + l[n]
    N = lambda n: "n." + l[n]
    out = {}
    bothx = x in this and x in new
    velx = False
    if x in flags:
        if x in new:
            out[x] = D((1, N(x)))
        elif x in this:
            t = [(1, T(x))]
            if v in this:
                t.append((1, T(v), "dt"))
            if a in this:
                if a in flags and a not in new and v in this and v in new:
                    # the acceleration over the step is the one seen from the velocities
                    t += [(Fr(1, 2), N(v), "dt"), (Fr(-1, 2), T(v), "dt")]
                else:
                    t.append((Fr(1, 2), T(a), "dt", "dt"))
            out[x] = D(*t)
        else:
            return None
    if v in flags:
        if v in new:
            out[v] = D((1, N(v)))
        elif bothx:
            out[v] = D((1, N(x), I1), (-1, T(x), I1))
            velx = True
        elif v in this:
            out[v] = D((1, T(v)), (1, T(a), "dt")) if a in this else D((1, T(v)))
        else:
            return None
    if a in flags:
        if a in new:
            out[a] = D((1, N(a)))
        elif v in this and v in new:
            out[a] = D((1, N(v), I1), (-1, T(v), I1))
        elif v in this and velx:
            out[a] = D((1, N(x), I2), (-1, T(x), I2), (-1, T(v), I1))
        elif bothx:
            out[a] = D((2, N(x), I2), (-2, T(x), I2))
        elif a in this:
            out[a] = D((1, T(a)))
        else:
            return None
    return out


def subsets(it):
    it = list(it)
    return [frozenset(c) for n in range(len(it) + 1) for c in itertools.combinations(it, n)]


class Checker:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.done = set()

    def fn(self, name, pred=lambda f: True):
        fs = [f for f in self.prog.methods_of[K] if f["q"].rsplit("::", 1)[-1] == name and f.get("body") is not None and pred(f)]
        if not fs:
            raise AnalysisError("P09: %s::%s not found" % (K, name))
        return fs[0]

    def bad(self, f, kind, item, case, msg, node=None):
        k = "%s %s %s" % (kind, f["q"].rsplit("::", 1)[-1], item)
        if k in self.done:
            return
        self.done.add(k)
        self.rep.bad(k, "%s:%s" % (f["file"], (node or {}).get("l", f["l"])), "%s [%s]: %s" % (f["q"], case, msg))

    def run(self, f, st, case, size=None):
        dom = Dom(rank)
        dom.size = size
        I = Interp(self.prog, dom)
        outs = I.run(f, st, cls=K)
        self.rep.count("cases")
        for node, fr, msg in dom.errors:
            self.bad(f, "use", msg.split("(")[0], case, msg, node)
        return outs

    def expect(self, f, case, s, L, spec, frames):
        for it, (on, v) in state_of(s, L).items():
            want = it in spec
            if on is None:
                self.rep.count("undecided")
            elif bool(on) != want:
                self.bad(f, "set", it, case, "%s is %s after the operation" % (it, "set although it cannot be derived" if on else "not set although it can be derived"))
                continue
            if not want:
                continue
            self.value(f, case, it, v, spec[it], frames.get("R" if it == "orientation" else "V"))

    def value(self, f, case, it, v, want, F=None):
        if v == JUNK:
            self.bad(f, "value", it, case, "%s is set but was never given a value" % it)
            return
        if not isinstance(v, Q):
            self.rep.count("undecided")
            return
        self.rep.count("decided")
        if v.D != want:
            self.bad(f, "value", it, case, "%s is made of [%s] instead of [%s]" % (it, show(v.D), show(want)))
        elif F is not None and v.F is not None and v.F != F and v.D:
            self.bad(f, "frame", it, case, "%s is in frame %s instead of %s" % (it, v.F, F))


def cs(items):
    return "+".join(SHORT[i] for i in ITEMS if i in items) or "nothing"


def run(prog, rep, tier):
    rep.rule(__doc__.split("\n\n")[1].replace("\n", " "))
    if K not in prog.records:
        raise AnalysisError("P09: class %s not found" % K)
    rest = [i for i in ITEMS if i != "orientation"]
    tasks = [("update", names, this) for names in (LIN, ANG) for this in subsets(names)]
    tasks += [("product", one | {"orientation"}) for one in subsets(rest)]
    tasks += [("operator*",), ("inverse",), ("integrate",)] + [("vectors", k) for k in subsets(ITEMS)]

    def work(r, t):
        c = Checker(prog, r)
        if t[0] == "update":
            update(prog, r, c, t[1], t[2])
        elif t[0] == "product":
            product(prog, r, c, tier, t[1])
        elif t[0] == "operator*":
            operator(prog, r, c)
        elif t[0] == "inverse":
            inverse(prog, r, c)
        elif t[0] == "integrate":
            integrate(prog, r, c)
        else:
            vectors(prog, r, c, t[1])

    parallel(rep, tasks, work)
    rep.need("cases", 1000)
    rep.need("decided", 400)
    if rep.cov.get("undecided", 0) * 20 > rep.cov.get("decided", 0):
        rep.errors.append("P09: too many undecided values")


def flagval(prog, items):
    """value of the flag constants"""
    out = 0
    for it in items:
        q = K + "::Flags::" + it
        v = prog.constant(q)
        if v is None:
            raise AnalysisError("P09: constant %s not found" % q)
        out |= int(v)
    return out


PFR = {"R": ("R", "A", "C"), "V": ("V", "A")}


def product(prog, rep, c, tier, one):
    f = c.fn("setToProductNoAlias")
    A, B = [(("arg", i, x["n"]),) for i, x in enumerate(f["p"])][:2]
    for two in subsets(ITEMS):
        if not (two & {"position", "orientation"}):
            continue
        for pre in ((), ITEMS):
            if tier == "quick" and pre and len(one) not in (1, 6):
                continue
            st = St()
            seed(st, ("this",), "old", pre, ("R", "X", "Y"), "X")
            seed(st, A, "1", one, ("R", "A", "B"), "A")
            seed(st, B, "2", two, ("R", "B", "C"), "B")
            case = "%s times %s" % (cs(one), cs(two))
            for s, v in c.run(f, st, case):
                c.expect(f, case, s, ("this",), product_spec(one, two), PFR)


def operator(prog, rep, c):
    g = c.fn("operator*")
    O = (("arg", 0, g["p"][0]["n"]),)
    st = St()
    seed(st, ("this",), "1", ITEMS, ("R", "A", "B"), "A")
    seed(st, O, "2", ITEMS, ("R", "B", "C"), "B")
    for s, v in c.run(g, st, "complete"):
        if v.loc is None:
            raise AnalysisError("P09: the result of operator* is not followed")
        c.expect(g, "complete", s, v.loc, product_spec(set(ITEMS), set(ITEMS)), PFR)


def inverse(prog, rep, c):
    f = c.fn("getInverse")
    for k in subsets(ITEMS):
        if "orientation" not in k:
            continue
        st = St()
        seed(st, ("this",), "t", k, ("R", "A", "B"), "A")
        case = "inverse of " + cs(k)
        for s, v in c.run(f, st, case):
            if v.loc is None:
                raise AnalysisError("P09: the result of getInverse is not followed")
            c.expect(f, case, s, v.loc, inverse_spec(k), {"R": ("R", "B", "A"), "V": ("V", "B")})


def integrate(prog, rep, c):
    f = c.fn("integrate")
    for k in subsets(ITEMS):
        st = St()
        seed(st, ("this",), "t", k, ("R", "A", "B"), "A")
        st.d[(("arg", 0, f["p"][0]["n"]),)] = lab("dt")
        case = "integration of " + cs(k)
        spec = dict(chain_integrate(k, LIN, ("t.p", "t.v", "t.a")))
        spec.update(chain_integrate(k, ANG, ("t.R", "t.w", "t.dw")))
        for s, v in c.run(f, st, case):
            moved = "orientation" in k and "angVel" in k
            c.expect(f, case, s, ("this",), spec, {"V": ("V", "A"), "R": ("R", "A'" if moved else "A", "B")})


def update(prog, rep, c, names, this):
    f = c.fn("update")
    P = f["p"]
    new = (("arg", 0, P[0]["n"]),)
    for nw in subsets(names):
        for fl in subsets(names):
            spec = update_spec(this, nw, fl, names, SHORT)
            st = St()
            seed(st, ("this",), "t", this, ("R", "A", "B"), "A")
            seed(st, new, "n", nw, ("R", "N", "B"), "A")
            st.d[(("arg", 1, P[1]["n"]),)] = lab("dt")
            st.c[(("arg", 2, P[2]["n"]),)] = flagval(prog, fl)
            case = "%s updated by %s asking for %s" % (cs(this), cs(nw), cs(fl))
            if spec is None:
                rep.count("refused_requests")
                continue
            for s, v in c.run(f, st, case):
                c.expect(f, case, s, ("this",), spec, {"V": ("V", "A")})


def vectors(prog, rep, c, k):
    tv = c.fn("toVector", lambda f: len(f["p"]) == 1)
    tv0 = c.fn("toVector", lambda f: len(f["p"]) == 0)
    fv = c.fn("fromVector")
    want, pos = {}, 0
    for it in ITEMS:
        if it in k:
            want[(pos, 0, SIZE[it], 1)] = it
            pos += SIZE[it]
    for f, have in ((tv, frozenset(ITEMS)), (tv, k), (tv0, k)):
        st = St()
        seed(st, ("this",), "t", have, ("R", "A", "B"), "A")
        if f["p"]:
            st.c[(("arg", 0, f["p"][0]["n"]),)] = flagval(prog, k)
        case = "vector form of " + cs(k)
        for s, v in c.run(f, st, case):
            if not want:
                continue
            if not (isinstance(v.v, tuple) and v.v[0] == "segs"):
                rep.count("undecided", len(want))
                continue
            matched, und, msg = places(v.v, want)
            rep.count("undecided", len(und))
            if msg:
                c.bad(f, "layout", "", case, msg)
            for sg, x in matched.items():
                c.value(f, case, want[sg], x, D((1, "t." + SHORT[want[sg]])))
    for pre in ((), ITEMS):
        st = St()
        seed(st, ("this",), "old", pre, ("R", "X", "Y"), "X")
        st.d[(("arg", 0, fv["p"][0]["n"]),)] = Q(("vector",), {})
        st.c[(("arg", 1, fv["p"][1]["n"]),)] = flagval(prog, k)
        case = "%s read from a vector" % cs(k)
        for s, v in c.run(fv, st, case, size=pos):
            spec = {it: D((1, "old." + SHORT[it])) for it in pre}
            spec.update({it: D((1, ("seg",) + sg)) for sg, it in want.items()})
            c.expect(fv, case, s, ("this",), spec, {})
