"""P03: objects do not share state: no mutable static storage, no copy that refers back to its original."""
from ..prog import walk, strip_t
from ..effects import Effects

# the one documented process-wide service: the random generator of ProbabilityLawSimulation
RNG_CLASS = "stateObservation::tools::ProbabilityLawSimulation"


def strip(e):
    while e is not None and e["k"] == "cast" and e.get("e"):
        e = e["e"]
    return e


def own_object(e):
    """expression designates *this or a (sub)member of it, not through a pointer member"""
    e = strip(e)
    if e["k"] == "this":
        return True
    if e["k"] == "un" and e["op"] in ("&", "*"):
        return own_object(e["e"])
    if e["k"] == "mem":
        return own_object(e["b"])
    return False


class Escape:
    """does function store its i-th pointer/reference parameter into a pointer/reference member?"""

    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    def stores(self, fn, i):
        key = (fn["usr"], i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        d = fn["p"][i]["d"]

        def isp(e):
            e = strip(e)
            if e["k"] == "un" and e["op"] in ("&", "*"):
                return isp(e["e"])
            return e["k"] == "var" and e.get("d") == d
        r = None
        for ini in fn.get("inits", []):
            e = ini.get("e")
            if e and ini.get("mem") and self.ptr_field(fn, ini["mem"]) and isp(e):
                r = ini["mem"]
            if e and e["k"] == "ctor" and (ini.get("base") or ini.get("deleg") or ini.get("mem")):
                r = r or self.through(e, isp)
        if fn.get("body"):
            for x in walk(fn["body"]):
                if x["k"] == "asg" and x["op"] == "=" and isp(x["b"]) and self.p.type(x["a"]).get("k") == "ptr":
                    a = strip(x["a"])
                    if a["k"] == "mem":
                        r = a["n"]
                elif x["k"] in ("call", "ctor"):
                    r = r or self.through(x, isp)
        self.memo[key] = r
        return r

    def ptr_field(self, fn, name):
        for c, f in self.p.all_fields(fn.get("cls")):
            if f["n"] == name:
                t = self.p.type(f)
                return t.get("k") == "ptr" or bool(t.get("ref"))
        return False

    def through(self, call, isp):
        fn = self.p.funcs.get(call.get("id"))
        if fn is None:
            return None
        for i, a in enumerate(call["a"]):
            if i < len(fn["p"]) and isp(a):
                t = self.p.type(fn["p"][i])
                if t.get("k") == "ptr" or t.get("ref"):
                    r = self.stores(fn, i)
                    if r:
                        return r
        return None


def run(prog, rep, tier):
    rep.rule("Rule 1: no function reachable in the library reads or writes a mutable variable with static storage "
             "(namespace scope, static member, static local), nor a static local whose initialiser depends on its caller, "
             "except the random generator.")
    rep.rule("Rule 2: a class that stores a pointer or reference to itself or to its own part (directly or inside a member) "
             "is not implicitly copyable. Rule 3: a class that owns raw memory is not implicitly copyable. Rule 4: a "
             "user-written copy operation transfers every data member.")
    eff = Effects(prog)
    mutable = {}
    for g in prog.globals.values():
        if not g.get("const") and not g.get("local"):
            mutable[g["n"]] = g
    rep.count("static_variables", len(prog.globals))
    # writes to any static variable
    for f in prog.funcs.values():
        if f.get("body") is None and not f.get("inits"):
            continue
        rep.count("functions")
        if (f.get("cls") or "") == RNG_CLASS:
            continue
        for x in walk_fn(f):
            if x["k"] == "decl" and x.get("static"):
                rep.count("static_locals")
                t = prog.type(x)
                dep = x.get("init") is not None and any(
                    y["k"] == "this" or (y["k"] == "var" and y["s"] in ("local", "param")) for y in walk(x["init"]))
                if not t.get("const"):
                    rep.bad("static-local %s %s" % (f["f"], x["n"]), prog.loc(f, x),
                            "mutable function-local static: all objects and threads share it")
                elif dep:
                    rep.bad("static-local %s %s" % (f["f"], x["n"]), prog.loc(f, x),
                            "static local initialised from the first caller's data: later objects see it")
            elif x["k"] == "var" and x["s"] not in ("local", "param"):
                n = x["n"]
                if n in mutable and not own_of_rng(n) and not constant_ptr(prog, mutable[n]):
                    rep.bad("static-variable %s used by %s" % (n, f["f"]), prog.loc(f, x),
                            "mutable variable with static storage shared by all objects")
        s = eff.summary(f)
        for path in s.may:
            if isinstance(path[0], tuple) and path[0][0] == "g" and not own_of_rng(path[0][1]) and not path[0][1].startswith("std::"):
                rep.bad("static-write %s by %s" % (path[0][1], f["f"]), prog.loc(f),
                        "writes a variable with static storage (%s)" % s.why.get(("w", path), ""))
    # self references
    esc = Escape(prog)
    selfref = {}
    owns = {}
    for f in prog.funcs.values():
        cls = f.get("cls")
        if not cls or f.get("static"):
            continue

        def note(field, node):
            selfref.setdefault(cls, (field, prog.loc(f, node), f["f"]))
        for ini in f.get("inits", []):
            e = ini.get("e")
            if not e or (f.get("copyctor") or f.get("movector")) and f.get("implicit"):
                continue
            if ini.get("mem") and esc.ptr_field(f, ini["mem"]):
                if own_object(e) and (e["k"] in ("this", "un", "cast") or prog_ref(prog, cls, ini["mem"])):
                    note(ini["mem"], ini)
                if any(x["k"] == "new" for x in walk(e)):
                    owns.setdefault(cls, (ini["mem"], prog.loc(f, ini), f["f"]))
            if e["k"] == "ctor":
                r = esc.through(e, own_object)
                if r:
                    note(r, ini)
        if f.get("body") is None:
            continue
        for x in walk(f["body"]):
            if x["k"] == "asg" and x["op"] == "=":
                a = strip(x["a"])
                if a["k"] == "mem" and own_object(a) and prog.type(x["a"]).get("k") == "ptr":
                    b = strip(x["b"])
                    if b["k"] in ("this", "un") and own_object(b):
                        note(a["n"], x)
                    if any(y["k"] == "new" for y in walk(x["b"])):
                        owns.setdefault(cls, (a["n"], prog.loc(f, x), f["f"]))
            elif x["k"] == "call" and "o" in x and own_object(x["o"]) and x["a"]:
                fn = prog.funcs.get(x.get("id"))
                if fn is None:
                    continue
                for i, a in enumerate(x["a"]):
                    if i < len(fn["p"]) and own_object(a) and (prog.type(fn["p"][i]).get("k") == "ptr" or prog.type(fn["p"][i]).get("ref")):
                        r = esc.stores(fn, i)
                        if r:
                            note(r, x)
    rep.count("self_referring_classes", len(selfref))
    for kind, table, why in (("self-reference", selfref, "stores the address of itself or its own part in %s"),
                             ("owning-pointer", owns, "owns memory through the raw pointer %s")):
        for c in sorted(prog.records):
            r = prog.records[c]
            if r.get("dep") or r.get("acc") != "public":
                continue
            for op, nm in (("cc", "copy-constructor"), ("ca", "copy-assignment")):
                h = holds(prog, c, table, op)
                if h is None:
                    continue
                field, where, fn = h
                rep.sample("%s: %s in %s via %s" % (kind, c, field, fn))
                rep.count("copy_obligations")
                if copyable(prog, c, op):
                    rep.bad("%s %s %s" % (kind, nm, c), where, (why % field) + "; its implicit copy refers to the original")
    # containers of such classes are covered because a member of a non-copyable class is not copyable
    for rn, r in prog.records.items():
        if r.get("dep"):
            continue
        rep.count("classes")
        for m in prog.methods_of.get(rn, ()):
            if m.get("implicit") or m.get("defaulted") or m.get("body") is None:
                continue
            iscc = m.get("copyctor")
            isca = m["q"].endswith("::operator=") and len(m["p"]) == 1 and prog.type(m["p"][0]).get("rid") == rn
            if not (iscc or isca):
                continue
            rep.count("user_copy_operations")
            s = eff.summary(m, rn)
            for fl in r["fields"]:
                pth = ("this", fl["n"])
                if not any(p[:2] == pth or p == ("this",) for p in s.must):
                    if empty_type(prog, fl):
                        continue
                    rep.bad("copy-misses %s %s" % (m["f"], fl["n"]), prog.loc(m),
                            "this copy operation does not transfer the member %s on every path" % fl["n"])
                    continue
                src = (("p", 0), fl["n"])
                if not any(p[:2] == src or p == (("p", 0),) or p[:1] == (("p", 0),) and len(p) == 1 for p in s.ue):
                    if empty_type(prog, fl):
                        continue
                    rep.bad("copy-misses %s %s" % (m["f"], fl["n"]), prog.loc(m),
                            "this copy operation does not take the member %s from its source" % fl["n"])
    rep.assumptions += ["functors, noises and arithmetics attached by the user are the user's to share"]
    rep.need("functions", 500)
    rep.need("classes", 30)
    rep.need("self_referring_classes", 0)
    rep.need("copy_obligations", 0)
    rep.need("user_copy_operations", 0)


def holds(prog, cls, table, op, seen=None):
    """a class whose memberwise copy would duplicate the pointer"""
    seen = seen or set()
    if cls in seen:
        return None
    seen.add(cls)
    if cls in table:
        return table[cls]
    r = prog.records.get(cls)
    if r is None:
        return None
    for b in r["bases"]:
        h = holds(prog, b, table, op, seen)
        if h:
            return h
    for f in r["fields"]:
        c = prog.type(f).get("rid")
        if c and not prog.type(f).get("ref") and prog.type(f).get("k") == "record":
            if prog.records.get(c, {}).get(op + "_user"):
                continue
            h = holds(prog, c, table, op, seen)
            if h:
                return h
    return None


def copyable(prog, cls, op, seen=None):
    """True if the implicit (memberwise) copy operation exists"""
    r = prog.records.get(cls)
    if r is None:
        return "noncopyable" not in cls
    if r.get(op + "_user") or r.get(op + "_del"):
        return False
    for m in r["methods"]:
        if m.get("del") and (op == "cc" and m["n"] == strip_t(cls).rsplit("::", 1)[-1] or op == "ca" and m["n"] == "operator="):
            return False
    for b in r["bases"]:
        if not copyable_any(prog, b, op):
            return False
    for f in r["fields"]:
        t = prog.type(f)
        if op == "ca" and t.get("ref"):
            return False
        if t.get("k") == "record" and t.get("rid") and not copyable_any(prog, t["rid"], op):
            return False
    return True


def copyable_any(prog, cls, op):
    r = prog.records.get(cls)
    return bool(r and r.get(op + "_user")) or copyable(prog, cls, op)


def prog_ref(prog, cls, name):
    for c, f in prog.all_fields(cls):
        if f["n"] == name:
            return bool(prog.type(f).get("ref"))
    return False


def empty_type(prog, fl):
    t = prog.type(fl)
    r = prog.records.get(t.get("rid"))
    return r is not None and not r["fields"]


def own_of_rng(n):
    return strip_t(n).startswith(RNG_CLASS)


def constant_ptr(prog, g):
    """pointer to constant data that no function reassigns (default messages): writes are reported separately"""
    return prog.type(g).get("k") == "ptr"


def walk_fn(f):
    for i in f.get("inits", []):
        if i.get("e"):
            yield from walk(i["e"])
    if f.get("body"):
        yield from walk(f["body"])
