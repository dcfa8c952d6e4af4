"""P07: no operation reads a value that was never given.

  R1  a local variable without initial value (scalar, fixed-size or merely sized matrix) is wholly written before it is read
  R2  what a constructor leaves without value is read by no public operation before that operation writes it
  R3  no member is read that nothing in the library writes
"""
from ..effects import Effects, Walker, prefix
from ..prog import walk, strip_t
from ..extract import AnalysisError
from .steps import contract
from .queries import public, dotted

# members without value that may be read all the same: reason
EXEMPT = {
    "scalar_": "stored for every scalar type that can be recorded (the types are checked by the logger property)",
    "op_.k_fory": "only read by the Jacobian at the last evaluation, which is documented to need an evaluation",
    "tempVec_": "scratch of a kinematics, only ever copied along with the object before being written",
}

SCALAR = ("int", "bool", "float", "enum", "ptr")


def fixed(t):
    return isinstance(t.get("rows"), int) and t.get("rows", -1) > 0 and t.get("cols", -1) > 0


def eigen(t):
    return "rows" in t and "Eigen" in (t.get("c") or "")


def sized_only(p, e):
    """constructs a matrix of the given sizes without coefficients"""
    t = p.type(e)
    if not eigen(t) or fixed(t) or not e["a"]:
        return False
    return all(p.type(a).get("k") in ("int", "enum") for a in e["a"])


class InitWalker(Walker):
    def __init__(self, *a):
        Walker.__init__(self, *a)
        self.uninit = {}
        self.bad = {}

    def decl_uninit(self, path, d):
        t = self.p.type(d)
        if t.get("k") in SCALAR or fixed(t):
            self.uninit[path[0]] = d
            if fixed(t):
                self.dims[path] = (t["rows"], t["cols"])
            self.eff.ndecl.add((self.fn["usr"], d["d"]))

    def decl_ctor(self, path, d):
        if sized_only(self.p, d["init"]):
            self.uninit[path[0]] = d
            self.eff.ndecl.add((self.fn["usr"], d["d"]))

    def init(self, e, path, node):
        if e["k"] == "ctor" and sized_only(self.p, e):
            for a in e["a"]:
                self.val(a)
            self.set_dims(path, e)
            if self.visible(path):
                self.s.may.add(path)
            return
        if e["k"] == "ctor" and e.get("dflt") and not e["a"] and eigen(self.p.type(e)):
            return
        Walker.init(self, e, path, node)

    def set_dims(self, path, e):
        from ..txt import txt
        cs = [self.cint(a) for a in e["a"]]
        t = self.p.type(e)
        if all(c is not None for c in cs):
            self.dims[path] = (cs[0], cs[1] if len(cs) > 1 else 1) if len(cs) > 1 or t.get("cols") == 1 else (1, cs[0])
        else:
            x = [txt(a) for a in e["a"]]
            self.sdims[path] = (x[0], x[1] if len(x) > 1 else "1")

    def local_read(self, path, node):
        if path[0] in self.uninit:
            self.bad.setdefault(path, node)

    def filled_by_cursor(self, d):
        """a vector of variable size filled segment after segment (its layout is another property)"""
        if fixed(self.p.type(d)):
            return False
        for n in walk(self.fn["body"]):
            if n["k"] == "call" and n.get("o") and strip_t(n.get("f", "")).rsplit("::", 1)[-1] in ("segment", "block", "middleRows"):
                o = n["o"]
                while o["k"] == "cast":
                    o = o["e"]
                if o["k"] == "var" and o.get("d") == d["d"] and self.cint(n["a"][0]) is None:
                    return True
        return False

    def run(self):
        s = Walker.run(self)
        self.bad = {k: v for k, v in self.bad.items() if not self.filled_by_cursor(self.uninit[k[0]])}
        self.eff.localbad[(self.fn["usr"], self.cls)] = (self.fn, dict(self.bad))
        return s


class InitEffects(Effects):
    def __init__(self, *a, **k):
        Effects.__init__(self, *a, **k)
        self.walker = InitWalker
        self.localbad = {}
        self.ndecl = set()


def leaves(prog, cls, pre, depth=0):
    """(path, type, field) of every member that default construction leaves without value"""
    for b in prog.bases(cls):
        for fl in prog.records.get(b, {}).get("fields", ()):
            if fl.get("static") or fl.get("t", -1) < 0:
                continue
            t = prog.types[fl["t"]]
            if t.get("ref"):
                continue
            if t.get("k") in SCALAR or fixed(t) or eigen(t):
                yield pre + (fl["n"],), t, fl
            elif t.get("rid") in prog.records and t["rid"].startswith("stateObservation::") and depth < 4:
                yield from leaves(prog, t["rid"], pre + (fl["n"],), depth + 1)


def run(prog, rep, tier):
    eff = InitEffects(prog, skip_assert=True, contract=contract)
    rep.rule(__doc__.split("\n\n")[1].replace("\n", " "))
    # R1
    for usr, f in sorted(prog.funcs.items()):
        if f.get("body") is None or f["file"].startswith("/") or "/examples/" in f["file"] or not f["file"].startswith(("src/", "include/")):
            continue
        eff.summary(f, f.get("cls"))
        rep.count("functions")
    seen = set()
    for (usr, cls), (f, bad) in sorted(eff.localbad.items(), key=str):
        for path, node in bad.items():
            key = "local %s %s" % (f["q"], path[0][2])
            if key in seen or "/examples/" in f["file"]:
                continue
            seen.add(key)
            rep.bad(key, "%s:%s" % (f["file"], (node or {}).get("l", f["l"])),
                    "%s may be read in %s before it is wholly written" % (path[0][2], f["q"]))
    rep.count("locals_without_initialiser", len(eff.ndecl))
    # R2
    for c in sorted(prog.records):
        if not c.startswith("stateObservation::") or "examples" in c or "detail" in c:
            continue
        if prog.records[c].get("abstract"):
            continue
        ctors = [f for f in prog.methods_of.get(c, ()) if f.get("kind") == "ctor" and not f.get("copy") and not f.get("move")
                 and (f.get("body") is not None or f.get("inits"))]
        for k in ctors:
            sk = eff.summary(k, c)
            un = []
            for path, t, fl in leaves(prog, c, ("this",)):
                if any(path[:i] in sk.must for i in range(1, len(path) + 1)):
                    continue
                if eigen(t) and not fixed(t):
                    # an empty dynamic matrix is a value; one that was given a size has none
                    if not any(m[:len(path)] == path for m in sk.may):
                        continue
                un.append(path)
            rep.count("constructors")
            rep.count("members_without_value", len(un))
            if not un:
                continue
            for g in public(prog, c):
                t = eff.summary(g, c)
                rep.count("constructor_operation_pairs")
                for u in sorted(t.ue, key=str):
                    hit = next((m for m in un if prefix(m, u) or prefix(u, m)), None)
                    if not hit or u in t.ret:
                        continue
                    if any(dotted(hit).endswith("." + x) for x in EXEMPT):
                        rep.count("exempt_members")
                        continue
                    key = "member %s %s" % (c.replace("stateObservation::", ""), dotted(hit))
                    if key in seen:
                        continue
                    seen.add(key)
                    rep.bad(key, t.why.get(("r", u), prog.loc(g)), "%s is left without value by the constructor (%s) and read by %s" % (
                        dotted(hit), prog.loc(k), g["q"]))
    rep.need("functions", 300)
    rep.need("constructors", 20)
