"""P08: the two representations of an orientation always denote the same rotation.

Every public operation of the orientation class is analysed for every combination of representations in force in its
operands.  A rotation that maps frame b to frame a has the frame type a<-b; the operands get types with distinct frames, so
that the type of a result determines which product or inverse it is.
  R1  a representation that is not in force is never used
  R2  after the operation every representation in force of every operand and of the result has the type the operation is for
  R3  after the operation at least one representation is in force (except after reset)
"""
import itertools
from ..interp import Interp, St, Val
from ..frames import FrameDomain, JUNK, ID, ERR, show
from ..extract import AnalysisError

O = "stateObservation::kine::Orientation"
REPS = ("m_", "q_")
UNSAFE = {"setMatrix", "setQuaternion", "getMatrixRefUnsafe", "getQuaternionRefUnsafe"}   # documented as unchecked
R = lambda a, b: ("R", a, b)
OTHER = R("P", "Q")

# name -> (type of this before, types of the arguments, type of this after, type of the result)   None: not applicable
AB = R("A", "B")
SPEC = {
    "setToProductNoAlias": (OTHER, [R("A", "B"), R("B", "C")], R("A", "C"), R("A", "C")),
    "operator*": (AB, [R("B", "C")], AB, R("A", "C")),
    "inverse": (AB, [], AB, R("B", "A")),
    "integrate": (AB, [R("N", "A")], R("N", "B"), R("N", "B")),
    "differentiate": (AB, [R("N", "B")], AB, R("N", "A")),
    "synchronize": (AB, [], AB, None),
    "setZeroRotation": (OTHER, [], ID, ID),
    "setRandom": (OTHER, [], ID, ID),
}
READERS = {"toMatrix3", "toQuaternion", "toVector4", "toRotationVector", "toRollPitchYaw", "toAngleAxis"}
SETTERS = {"operator=", "setValue", "fromVector4"}


def seed(st, L, flags, ty):
    for n, s in zip(REPS, flags):
        st.c[L + (n, "isSet_", "b_")] = s
        st.d[L + (n, "v_")] = ty if s else JUNK


def run(prog, rep, tier):
    rep.rule(__doc__.split("\n\n")[1].replace("\n", " "))
    if O not in prog.records:
        raise AnalysisError("P08: class %s not found" % O)
    acc = {m["usr"]: m["acc"] for m in prog.records[O]["methods"]}
    seen = set()
    done = set()
    for f in sorted(prog.methods_of[O], key=lambda f: (f["file"], f["l"])):
        n = f["q"].rsplit("::", 1)[-1]
        if f.get("body") is None and not f.get("inits"):
            continue
        if n in UNSAFE or n.startswith(("operator new", "operator delete")) or f.get("kind") == "dtor" or f.get("implicit") or f.get("defaulted"):
            continue
        if acc.get(f["usr"], "public") != "public":
            continue
        for a in sorted(analyse(prog, rep, f, n, done)):
            seen.add(a)
    for n in list(SPEC) + sorted(READERS):
        if n not in seen:
            if n in ("inverse", "setToProductNoAlias", "integrate", "toMatrix3", "toQuaternion"):
                raise AnalysisError("P08: %s::%s not found" % (O, n))
    rep.need("operations", 20)
    rep.need("cases", 60)


def isvec(prog, p):
    t = prog.type(p)
    return t.get("rows") == 3 and t.get("cols") == 1


def analyse(prog, rep, f, n, done):
    params = f["p"]
    ctor = f.get("kind") == "ctor"
    oparams = [i for i, x in enumerate(params) if prog.type(x).get("rid") == O]
    this0, ret = AB, None
    if ctor:
        if len(params) == 1 and prog.type(params[0]).get("k") == "bool":
            return set()
        this0 = None
        if len(oparams) == 2:
            argt, after = [R("A", "B"), R("B", "C")], R("A", "C")
        else:
            argt, after = [AB] * len(params), AB
    elif n == "operator*" and not oparams:
        argt, after, ret = [("V", "B")], AB, ("V", "A")
    elif n in SPEC:
        this0, argt, after, ret = SPEC[n]
    elif n in SETTERS:
        this0, argt, after, ret = OTHER, [AB] * len(params), AB, AB
    elif n in READERS or (f["q"].split("::")[-1].startswith("operator const") or n in ("Matrix &", "Quaternion &")):
        argt, after, ret = [], AB, AB
    elif n == "reset":
        argt, after = [], "none"
    elif f.get("static"):
        this0, argt, after, ret = None, [], None, ID
    else:
        argt, after = [None] * len(params), AB      # predicates and unknown operations: the rotation is unchanged
    rep.count("operations")
    combos = [(True, False), (False, True), (True, True)]
    objs = ([("this",)] if this0 is not None else []) + [(("arg", i, params[i]["n"]),) for i in oparams]
    for combo in itertools.product(combos, repeat=len(objs)):
        st = St()
        tys = []
        for L, fl in zip(objs, combo):
            ty = this0 if L == ("this",) else argt[L[0][1]] if L[0][1] < len(argt) else AB
            seed(st, L, fl, ty)
            tys.append((L, ty))
        for i, x in enumerate(params):
            if i not in oparams and i < len(argt) and argt[i] is not None:
                st.d[(("arg", i, x["n"]),)] = argt[i]
        dom = FrameDomain()
        I = Interp(prog, dom)
        case = "/".join("+".join(r[0] for r, s in zip("mq", fl) if s) for fl in combo)
        rep.count("cases")
        sig = "%s(%s)" % (n, ",".join(prog.type(x)["s"].replace("const ", "").replace(" &", "").split("::")[-1] for x in params))

        def bad(kind, msg, node=None):
            key = "%s %s" % (kind, sig)
            if key in done:
                return
            done.add(key)
            rep.bad(key, "%s:%s" % (f["file"], (node or {}).get("l", f["l"])), "%s [operands holding %s]: %s" % (sig, case, msg))

        outs = I.run(f, st, cls=O)
        rep.count("exits", len(outs))
        for node, fr, msg in dom.errors:
            bad("type", msg, node)
        for s, v in outs:
            checks = []
            if this0 is not None or ctor:
                checks.append((("this",), after, "the orientation"))
            for L, ty in tys:
                if L != ("this",):
                    checks.append((L, ty, "the operand " + L[0][2]))
            if ret is not None:
                if v.loc is not None and v.loc + ("m_", "isSet_", "b_") in s.c:
                    checks.append((v.loc, ret, "the result"))
                else:
                    t = s.d.get(v.loc) if v.loc is not None and not v.sub else dom.read(I, s, v, None, None) if v.loc is not None else v.v
                    if t is not None and (t == JUNK or t[0] in (ERR, "mod") or (t != ret)):
                        bad("result", "the result is %s instead of %s" % (show(t), show(ret)))
                    rep.count("decided" if t is not None else "undecided")
            for L, ty, what in checks:
                inforce = 0
                for r in REPS:
                    b = s.c.get(L + (r, "isSet_", "b_"))
                    t = s.d.get(L + (r, "v_"))
                    if b is False:
                        continue
                    inforce += 1
                    if ty == "none":
                        bad("reset", "%s is still in force after reset" % r)
                        continue
                    if t is None:
                        rep.count("undecided")
                        continue
                    rep.count("decided")
                    if ty is not None and t != ty:
                        bad("incoherent", "the %s of %s is %s instead of %s" % (
                            "matrix" if r == "m_" else "quaternion", what, "stale" if t == JUNK else show(t), show(ty)))
                if not inforce and ty != "none":
                    bad("unset", "%s is left without a representation" % what)
                if n == "synchronize" and L == ("this",) and inforce != 2:
                    bad("sync", "synchronize leaves a representation out of date")
    return {n}
