"""P02: switching the checks off changes nothing else."""
from ..prog import program, walk, strip_t
from ..effects import Effects, Walker
from ..extract import AnalysisError


class AssertWalker(Walker):
    def __init__(self, eff, fn, cls):
        super().__init__(eff, fn, cls)
        self.ina = None
        self.hits = []
        self.n = 0

    def e_assert(self, e):
        m = None if self.must is None else set(self.must)
        old, self.ina = self.ina, e
        self.n += 1
        self.val(e["c"])
        self.ina = old
        self.must = m
        return []

    def write(self, path, node, full=True):
        if self.ina is not None and path and path[0] != ("l", "tmp", "tmp"):
            self.hits.append((self.ina, path))
        super().write(path, node, full)

    def e_call(self, e):
        if self.ina is not None:
            before = set(self.s.ext)
            self.s.ext = set()
            r = super().e_call(e)
            for n in sorted(self.s.ext):
                if impure_ext(n):
                    self.hits.append((self.ina, (("x", n),)))
            self.s.ext |= before
            return r
        return super().e_call(e)


def impure_ext(n):
    """external functions whose call has an observable effect beyond their result"""
    return (n.startswith("std::basic_o") or n.startswith("std::operator<<") or n.startswith("boost::random")
            or "fopen" in n or n in ("std::rand", "rand", "std::getline", "printf", "std::exit", "exit"))


def show(path):
    return ".".join(x if isinstance(x, str) else str(x[-1] if x[0] != "p" else "arg%d" % x[1]) for x in path)


OUT = ("std::cout", "std::cerr", "std::clog")


def is_output(s):
    """expression statement that only prints"""
    n = s
    while n["k"] == "call" and n.get("op") == "<<" or n["k"] == "cast":
        if n["k"] == "cast":
            n = n["e"]
            continue
        n = n["o"] if "o" in n else n["a"][0]
    return n["k"] == "var" and n["n"] in OUT


def norm(s):
    """statement -> normal form without checks and prints; None if nothing is left"""
    if s is None:
        return None
    k = s["k"]
    if k in ("assert", "nop", "throw"):
        return None
    if k == "cast" and s.get("ck") == "ToVoid":
        return None
    if k == "blk":
        l = [norm(x) for x in s["s"]]
        l = [x for x in l if x is not None]
        return ("blk", tuple(l)) if l else None
    if k == "if":
        a, b = norm(s["a"]), norm(s.get("b"))
        if a is None and b is None and not writes(s["c"]):
            return None
        return ("if", form(s["c"]), a, b)
    if k == "call" and is_output(s):
        return None
    return form(s)


def writes(e):
    for x in walk(e):
        if x["k"] == "asg" or (x["k"] == "un" and x.get("op") in ("++", "--")):
            return True
        if x["k"] == "call" and "o" in x and not x.get("cm"):
            return True
    return False


STMT = {"blk", "if", "for", "while", "do", "rfor", "sw", "try", "case", "default"}
DROP = {"t", "to", "ty", "l", "_id", "co", "id", "ta", "d", "pm", "cls", "tn"}


def form(n):
    if isinstance(n, dict):
        if n.get("k") in STMT and n["k"] in ("blk", "if"):
            return norm(n)
        out = []
        for key in sorted(n):
            if key in DROP:
                continue
            v = n[key]
            if isinstance(v, str) and key in ("f", "n"):
                v = strip_t(v)
            if isinstance(v, dict) and v.get("k") in ("blk", "if", "assert"):
                v = norm(v)
            else:
                v = form(v)
            out.append((key, v))
        return tuple(out)
    if isinstance(n, list):
        return tuple(form(x) for x in n)
    return n


def whole(f):
    return (norm(f["body"]) if f.get("body") else None, tuple(
        (i.get("mem"), i.get("base"), form(i["e"]) if i.get("e") else None) for i in f.get("inits", [])))


def run(prog, rep, tier):
    rep.rule("Rule 1 (effects): the condition of every assertion writes nothing: no variable, member, argument or stream, "
             "directly or through any function it can reach.")
    rep.rule("Rule 2 (two builds): every function, parsed with and without NDEBUG, is the same program once assertions, "
             "checks that only throw and prints are removed; so are constants, initialisers and class fields.")
    eff = Effects(prog)
    for f in prog.funcs.values():
        if f.get("body") is None or not any(x["k"] == "assert" for x in walk(f["body"])):
            continue
        rep.count("functions_with_assertions")
        w = AssertWalker(eff, f, f.get("cls"))
        w.run()
        rep.count("assertions", w.n)
        for a, path in w.hits:
            rep.bad("assertion-effect %s writes %s" % (f["f"], show(path)), prog.loc(f, a),
                    "the condition of this assertion modifies %s: a release build skips the modification" % show(path))
    rel = program(("-DNDEBUG",))
    rep.count("functions_compared", 0)
    for u, f in prog.funcs.items():
        g = rel.funcs.get(u)
        if g is None:
            continue            # instantiated only by a check
        rep.count("functions_compared")
        if whole(f) != whole(g):
            rep.bad("build-dependent %s" % f["f"], prog.loc(f),
                    "the code of this function depends on NDEBUG beyond its assertions and prints")
    for u, g in rel.funcs.items():
        if u not in prog.funcs:
            rep.bad("release-only %s" % g["f"], rel.loc(g), "this function exists only in a release build")
    for rn, r in prog.records.items():
        g = rel.records.get(rn)
        if g is None:
            continue
        a = [(x["n"], prog.type(x).get("s")) for x in r["fields"]]
        b = [(x["n"], rel.type(x).get("s")) for x in g["fields"]]
        rep.count("records_compared")
        if a != b:
            rep.bad("build-dependent fields %s" % rn, "%s:%s" % (r["file"], r["l"]),
                    "the members of this class differ between debug and release")
    for k, g in prog.globals.items():
        h = rel.globals.get(k)
        if h is None or g["n"] in ("stateObservation::isDebug",):
            continue
        rep.count("constants_compared")
        if g.get("cv") != h.get("cv") or ("cv" not in g and g.get("init") and h.get("init") and form(g["init"]) != form(h["init"])):
            rep.bad("build-dependent constant %s" % g["n"], "%s:%s" % (g["file"], g["l"]), "its value depends on NDEBUG")
    rep.assumptions += ["Eigen's own assertions have no side effects", "printing to standard output is not a result"]
    rep.need("assertions", 10)
    rep.need("functions_compared", 600)
