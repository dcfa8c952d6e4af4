"""Transitive effect summaries over access paths.

For a function (analysed for the exact class of its object) the summary holds
  ue    paths that may be read before they are certainly written (upward-exposed reads)
  may   paths that may be written
  must  paths certainly written on every normal exit
  ext   external functions that may be reached (resolved names)
  ret   paths whose storage the result may designate
Paths are rooted at this / a parameter / a global; calls are resolved (virtual calls by the object's class) and
substituted, so a helper extracted from a function does not change the function's summary.
"""
from .prog import strip_t
from .txt import txt
from .interp import VIEWS, ELEM_OPS, SETTERS, RESIZERS, CONTAINERS, obj_class

MAXLEN = 7
FULLVIEW = {"noalias", "array", "matrix", "derived", "coeffs"}
CONT_READ = {"at", "front", "back", "begin", "end", "find", "rbegin", "cbegin", "upper_bound", "lower_bound", "cend", "rend"}
CONT_Q = {"size", "empty", "count", "max_size", "capacity", "data"}


def prefix(a, b):
    return len(a) <= len(b) and b[: len(a)] == a


def constant(e):
    """truth value of a condition that is a compile-time constant, else None"""
    if e.get("cv") is not None:
        return bool(e["cv"])
    k = e["k"]
    if k == "bool":
        return bool(e["v"])
    if k == "un" and e["op"] == "!":
        c = constant(e["e"])
        return None if c is None else not c
    if k == "cast" and e.get("e"):
        return constant(e["e"])
    if k == "bin" and e["op"] in ("&&", "||"):
        a, b = constant(e["a"]), constant(e["b"])
        if e["op"] == "&&":
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    return None


class Summary:
    __slots__ = ("ue", "may", "must", "ext", "ret", "why", "calls")

    def __init__(self):
        self.ue = set()
        self.may = set()
        self.must = frozenset()
        self.ext = set()
        self.ret = set()
        self.why = {}       # path -> (kind, file:line, func) first site
        self.calls = set()

    def key(self):
        return (len(self.ue), len(self.may), self.must, len(self.ext), len(self.ret))


class Effects:
    def __init__(self, prog, skip_assert=False, opaque=None, contract=None):
        # contract(qualified name) -> indices of the parameters that any implementation wholly writes (and does not read), or None
        self.contract = contract or (lambda f: None)
        self.prog = prog
        self.memo = {}
        self.active = set()
        self.skip_assert = skip_assert
        self.opaque = opaque or (lambda f: False)
        self.changed = False
        self.walker = None

    def summary(self, fn, cls=None):
        if fn.get("kind") not in ("ctor",) and fn.get("static"):
            cls = None
        cls = cls or fn.get("cls")
        key = (fn["usr"], cls)
        if key in self.active:
            return self.memo.setdefault(key, Summary())
        if key in self.memo and key not in self.active:
            return self.memo[key]
        self.active.add(key)
        self.memo[key] = Summary()
        for _ in range(4):
            w = (self.walker or Walker)(self, fn, cls)
            s = w.run()
            old = self.memo[key]
            self.memo[key] = s
            if s.key() == old.key():
                break
        self.active.discard(key)
        return self.memo[key]


class Walker:
    def __init__(self, eff, fn, cls):
        self.eff = eff
        self.p = eff.prog
        self.fn = fn
        self.cls = cls
        self.s = Summary()
        self.alias = {}
        self.must = set()      # None = unreachable
        self.rets = []
        self.params = {}
        for i, p in enumerate(fn["p"]):
            self.params[p["d"]] = i
        self.brk = []
        self.consts = {}
        self.dims = {}
        self.sdims = {}        # path -> texts of the sizes given by the last resize
        self.loopv = {}        # counting variable of the enclosing loops -> text of the bound

    # -- results
    def run(self):
        f = self.fn
        if f.get("kind") == "ctor":
            for ini in f.get("inits", []):
                e = ini.get("e")
                if not e:
                    continue
                if ini.get("mem"):
                    self.init(e, ("this", ini["mem"]), ini)
                elif ini.get("base") or ini.get("deleg"):
                    if e["k"] == "ctor":
                        self.construct(e, ("this",))
        if f.get("body"):
            self.stmt(f["body"])
        if self.must is not None:
            self.rets.append(frozenset(self.must))
        m = None
        for r in self.rets:
            m = set(r) if m is None else self.meet(m, r)
        # canonical: keep only externally visible roots
        self.s.must = frozenset(x for x in (m or ()) if x and not isinstance(x[0], tuple) or (x and x[0][0] in ("p", "g")))
        return self.s

    def meet(self, a, b):
        out = {x for x in a if x in b or any(prefix(y, x) for y in b)}
        out |= {x for x in b if any(prefix(y, x) for y in a)}
        return out

    def note(self, path, kind, node):
        if path not in self.s.why or kind == "w":
            self.s.why.setdefault((kind, path), "%s:%s %s" % (self.fn["file"], node.get("l", self.fn["l"]) if node else self.fn["l"], self.fn["q"]))

    def visible(self, path):
        return path[0] == "this" or (isinstance(path[0], tuple) and path[0][0] in ("p", "g"))

    def read(self, path, node, part=True):
        if path is None or not path:
            return
        path = path[:MAXLEN]
        if self.must is not None:
            for i in range(1, len(path) + 1):
                if path[:i] in self.must:
                    return
            if isinstance(part, frozenset) and part and all(path + (("c",) + c,) in self.must for c in part):
                return
        if self.visible(path):
            self.s.ue.add(path)
            self.note(path, "r", node)
        elif isinstance(path[0], tuple) and path[0][0] == "l":
            self.local_read(path, node)

    def local_read(self, path, node):
        pass

    def write(self, path, node, full=True):
        if path is None or not path:
            return
        path = path[:MAXLEN]
        if self.visible(path):
            self.s.may.add(path)
            self.note(path, "w", node)
        if self.must is None or "[]" in path or "->" in path[-1:]:
            return
        if full is True:
            self.must.add(path)
        elif isinstance(full, tuple):
            self.must.add(path + (full,))
        elif full:
            # part of a matrix: certainly written once all its cells are
            for c in full:
                self.must.add(path + (("c",) + c,))
            d = self.dims.get(path)
            if d and all(path + (("c", i, j),) in self.must for i in range(d[0]) for j in range(d[1])):
                self.must.add(path)

    # -- matrices
    def cint(self, e):
        """constant integer value of an expression, if known"""
        if e is None:
            return None
        c = e.get("cv")
        if isinstance(c, int):
            return c
        if e["k"] == "int":
            return e["v"]
        if e["k"] == "cast" and e.get("e"):
            return self.cint(e["e"])
        if e["k"] == "var" and e.get("d") in self.consts:
            return self.consts[e["d"]]
        if e["k"] == "bin" and e["op"] in "+-*":
            a, b = self.cint(e["a"]), self.cint(e["b"])
            if a is not None and b is not None:
                return a + b if e["op"] == "+" else a - b if e["op"] == "-" else a * b
        return None

    def shape(self, t):
        r, c = t.get("rows"), t.get("cols")
        return (r, c) if isinstance(r, int) and isinstance(c, int) and r > 0 and c > 0 else None

    def region(self, name, e, dims, targs):
        """cells of a matrix of shape dims designated by the view call e"""
        R, C = dims
        a = [self.cint(x) for x in e["a"]]
        ta = [x for x in targs if isinstance(x, int)]
        vec = C == 1 or R == 1

        def box(i, j, r, c):
            if None in (i, j, r, c) or i < 0 or j < 0:
                return False
            return frozenset((x, y) for x in range(i, min(i + r, R)) for y in range(j, min(j + c, C)))

        def seg(i, n):
            if i is None or n is None:
                return False
            return box(i, 0, n, 1) if C == 1 else box(0, i, 1, n)
        if name in ("()", "[]", "coeffRef", "coeff"):
            if len(a) == 1:
                return seg(a[0], 1)
            return box(a[0], a[1], 1, 1)
        if name in ("x", "y", "z", "w"):
            return seg("xyzw".index(name), 1)
        n = ta[0] if ta else None
        if name == "segment":
            return seg(a[0], n if n is not None else (a[1] if len(a) > 1 else None))
        if name == "head":
            return seg(0, n if n is not None else (a[0] if a else None))
        if name == "tail":
            n = n if n is not None else (a[0] if a else None)
            return seg(max(R, C) - n, n) if n is not None else False
        if name == "block":
            if len(ta) >= 2 and len(a) == 2:
                return box(a[0], a[1], ta[0], ta[1])
            if len(a) == 4:
                return box(*a)
            return False
        if name == "row":
            return box(a[0], 0, 1, C)
        if name == "col":
            return box(0, a[0], R, 1)
        if name in ("topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
            m = n if n is not None else (a[-1] if a else None)
            if m is None:
                return False
            if name == "topRows":
                return box(0, 0, m, C)
            if name == "bottomRows":
                return box(R - m, 0, m, C)
            if name == "leftCols":
                return box(0, 0, R, m)
            if name == "rightCols":
                return box(0, C - m, R, m)
            return box(a[0], 0, m, C) if name == "middleRows" else box(0, a[0], R, m)
        if name in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            r, c = (ta[0], ta[1]) if len(ta) >= 2 else (a[0], a[1]) if len(a) >= 2 else (None, None)
            if None in (r, c):
                return False
            return box(0 if "top" in name else R - r, 0 if "Left" in name else C - c, r, c)
        return False

    # -- expressions: returns list of (path, full) designated, [] for pure values
    def val(self, e):
        """evaluates as rvalue: reads whatever is designated"""
        for p, full in self.ev(e):
            self.read(p, e, full)

    def ev(self, e):
        if e is None:
            return []
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m:
            return m(e)
        for x in self.kids(e):
            self.val(x)
        return []

    def kids(self, e):
        for v in e.values():
            if isinstance(v, dict) and "k" in v:
                yield v
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict) and "k" in y:
                        yield y

    def e_var(self, e):
        if e["s"] in ("local", "param"):
            if e["d"] in self.alias:
                return list(self.alias[e["d"]])
            if e["d"] in self.params:
                return [((("p", self.params[e["d"]]),), True)]
            return [((("l", e["d"], e["n"]),), True)]
        if "cv" in e or "cvf" in e:
            return []
        return [((("g", e["n"]),), True)]

    def e_this(self, e):
        return [(("this",), True)]

    def isptr(self, e):
        return self.p.type(e).get("k") == "ptr" and e["k"] not in ("this",) and not (e["k"] == "un" and e.get("op") == "&")

    def deref(self, e, ds):
        if not self.isptr(e):
            return ds
        if e["k"] == "var" and e.get("d") in self.alias:
            return ds
        if e["k"] in ("cast",) and e.get("e"):
            return self.deref(e["e"], ds)
        out = []
        for p, f in ds:
            self.read(p, e)
            out.append((p + ("->",), f))
        return out

    def e_mem(self, e):
        ds = self.ev(e["b"])
        if e.get("arrow"):
            ds = self.deref(e["b"], ds)
        return [(p + (e["n"],), f) for p, f in ds]

    def e_cast(self, e):
        if e.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic") or (
                e["to"] >= 0 and self.p.types[e["to"]].get("ref")) or self.p.type(e).get("k") == "ptr":
            return self.ev(e["e"])
        self.val(e["e"])
        return []

    def e_un(self, e):
        op = e["op"]
        if op == "*":
            return self.deref(e["e"], self.ev(e["e"]))
        if op == "&":
            return self.ev(e["e"])
        if op in ("++", "--"):
            ds = self.ev(e["e"])
            for p, f in ds:
                self.read(p, e)
                self.write(p, e, f)
            return ds
        self.val(e["e"])
        return []

    def e_bin(self, e):
        if e["op"] in ("&&", "||"):
            self.val(e["a"])
            m = None if self.must is None else set(self.must)
            self.val(e["b"])
            self.must = m
            return []
        if e["op"] == ",":
            self.val(e["a"])
            return self.ev(e["b"])
        self.val(e["a"])
        self.val(e["b"])
        return []

    def e_asg(self, e):
        self.val(e["b"])
        ds = self.ev(e["a"])
        for p, f in ds:
            if e["op"] != "=":
                self.read(p, e, f)
            self.write(p, e, f if len(ds) == 1 else False)
        return ds

    def e_cond(self, e):
        self.val(e["c"])
        m = None if self.must is None else set(self.must)
        a = self.ev(e["a"])
        ma = self.must
        self.must = m
        b = self.ev(e["b"])
        self.must = self.jn(ma, self.must)
        return a + b

    def jn(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.meet(a, b)

    def e_idx(self, e):
        self.val(e["i"])
        return [(p + ("[]",), False) for p, f in self.ev(e["b"])]

    def e_assert(self, e):
        if self.eff.skip_assert:
            return []
        m = None if self.must is None else set(self.must)
        self.val(e["c"])
        self.must = m
        return []

    def e_lambda(self, e):
        # body may run any number of times
        m = None if self.must is None else set(self.must)
        for i, p in enumerate(e.get("p", [])):
            self.alias.setdefault(p["d"], [])
        if e.get("body"):
            r, self.rets = self.rets, []
            self.stmt(e["body"])
            self.rets = r
        self.must = m
        return []

    def e_throw(self, e):
        for x in self.kids(e):
            self.val(x)
        self.must = None
        return []

    def e_fn(self, e):
        return []

    def e_new(self, e):
        if e.get("e"):
            self.ev(e["e"])
        return []

    def e_ctor(self, e):
        t = self.p.type(e)
        if "rid" in t or self.p.funcs.get(e.get("id")):
            self.construct(e, (("l", "tmp", "tmp"),))
            return []
        for a in e["a"]:
            self.val(a)
        return []

    def construct(self, e, path):
        fn = self.p.funcs.get(e.get("id"))
        args = [self.ev(a) for a in e["a"]]
        if fn is not None and (fn.get("body") is not None or fn.get("inits")) and not (
                (e.get("copy") or e.get("move")) and (fn.get("defaulted") or fn.get("implicit"))):
            self.apply(fn, e.get("cls") if path != ("this",) else fn.get("cls"), [(path, True)], args, e, e["a"])
        else:
            for ds in args:
                for p, f in ds:
                    self.read(p, e)
            if not e.get("dflt") or e["a"]:
                self.write(path, e)

    def init(self, e, path, node):
        if e["k"] == "ctor":
            self.construct(e, path)
            t = self.p.type(e)
            if not (e.get("dflt") and not e["a"]) or ("rid" not in t and not self.fixed_eigen(t)):
                self.write(path, node)
            return
        self.val(e)
        self.write(path, node)

    def fixed_eigen(self, t):
        return isinstance(t.get("rows"), int) and t.get("rows", -1) > 0 and t.get("cols", -1) > 0

    def e_init(self, e):
        for a in e["a"]:
            self.val(a)
        return []

    # -- calls
    def e_call(self, e):
        p = self.p
        name = strip_t(e["f"]) if "f" in e else None
        if name is None:
            if e.get("fe"):
                self.val(e["fe"])
            for a in e["a"]:
                self.val(a)
            return []
        op = e.get("op")
        if op in (",", "<<") and "CommaInitializer" in (p.type(e).get("cls") or ""):
            return self.comma(e)
        obj = self.ev(e["o"]) if "o" in e else None
        if obj is not None and e.get("arrow"):
            obj = self.deref(e["o"], obj)
        args = [self.ev(a) for a in e["a"]]
        con = self.eff.contract(name)
        if con is not None:
            for i, ds in enumerate(args):
                for q, f in ds:
                    if i in con:
                        self.write(q, e, f if len(ds) == 1 else False)
                    else:
                        self.read(q, e, f)
            return []
        fns = self.targets(e, obj)
        if fns:
            if len(fns) == 1:
                return self.apply(fns[0][0], fns[0][1], obj, args, e, e["a"])
            m0 = None if self.must is None else set(self.must)
            outs, rets = None, []
            for f, c in fns:
                self.must = None if m0 is None else set(m0)
                rets += self.apply(f, c, obj, args, e, e["a"])
                outs = self.must if outs is None else self.jn(outs, self.must)
            self.must = outs
            return rets
        return self.extern(e, name, op, obj, args)

    def static_cls(self, e, obj):
        """exact class of the object expression if it is a subobject (not a pointer/reference)"""
        o = e["o"]
        while o["k"] == "cast":
            o = o["e"]
        if o["k"] == "this" or (o["k"] == "un" and o["e"]["k"] == "this"):
            return self.cls, True
        t = self.p.type(o)
        if o["k"] == "mem" and not t.get("ref") and t.get("k") == "record":
            return t.get("rid"), True
        if o["k"] == "var" and o["s"] == "local" and not t.get("ref") and t.get("k") == "record":
            return t.get("rid"), True
        return t.get("pcls") if t.get("k") == "ptr" else t.get("rid"), False

    def targets(self, e, obj):
        p = self.p
        fid = e.get("id")
        fn = p.funcs.get(fid) if fid else None
        if not fid:
            return []
        if fn is not None and fn.get("defaulted") and e.get("op") == "=":
            return []          # memberwise assignment: handled as a whole-object write
        if obj is None or (fn is not None and fn.get("static")):
            if fn is not None and fn.get("body") is not None and not self.eff.opaque(fn):
                return [(fn, None)]
            return []
        cls, exact = self.static_cls(e, obj)
        if e.get("virt"):
            if exact and cls:
                f = p.resolve_virtual(fid, cls)
                if f is not None and f.get("body") is not None and not self.eff.opaque(f):
                    return [(f, cls)]
                if f is not None and f.get("body") is None:
                    pass
            out = []
            base = cls or (fn or {}).get("cls")
            seen = set()
            for c in sorted(p.subclasses(base)) if base else []:
                f = p.resolve_virtual(fid, c)
                if f is not None and f.get("body") is not None and not self.eff.opaque(f) and f["usr"] not in seen:
                    seen.add(f["usr"])
                    out.append((f, c))
            return out
        if fn is not None and fn.get("body") is not None and not self.eff.opaque(fn):
            return [(fn, cls if cls and fn.get("cls") in p.bases(cls) else fn.get("cls"))]
        return []

    def apply(self, fn, cls, obj, args, node, argn):
        if self.eff.opaque(fn):
            return []
        s = self.eff.summary(fn, cls)
        self.s.calls.add(fn["usr"])
        self.s.calls |= s.calls
        self.s.ext |= s.ext
        pt = [self.p.type(x) for x in fn["p"]]

        def sub(path):
            r = path[0]
            if r == "this":
                return [(o + path[1:], f) for o, f in (obj or [])]
            if isinstance(r, tuple) and r[0] == "p":
                i = r[1]
                if i < len(args):
                    if pt[i].get("ref") or pt[i].get("k") == "ptr":
                        rest = path[1:]
                        if pt[i].get("k") == "ptr" and rest and rest[0] == "->" and i < len(argn) and not self.isptr(argn[i]):
                            rest = rest[1:]
                        return [(a + rest, f) for a, f in args[i]]
                    return []
                return []
            return [(path, True)]

        # by-value arguments are read
        for i, a in enumerate(args):
            if i < len(pt) and not (pt[i].get("ref") or pt[i].get("k") == "ptr"):
                for q, f in a:
                    self.read(q, argn[i] if i < len(argn) else node)
        for path in s.ue:
            for q, f in sub(path):
                self.read(q, node)
                self.s.why.setdefault(("r", q[:MAXLEN]), s.why.get(("r", path), ""))
                w = s.why.get(("r", path))
                if w and self.visible(q):
                    self.s.why[("r", q[:MAXLEN])] = w
        for path in s.may:
            for q, f in sub(path):
                w = s.why.get(("w", path))
                q = q[:MAXLEN]
                had = ("w", q) in self.s.why
                self.write(q, node, False)
                if w and self.visible(q) and not had:
                    self.s.why[("w", q)] = w
        for path in s.must:
            ds = sub(path)
            if len(ds) == 1 and ds[0][1]:
                self.write(ds[0][0], node, ds[0][1] if not isinstance(path[-1], tuple) or path[-1][0] != "c" else True)
        out = []
        rt = self.p.types[fn["ret"]] if fn.get("ret", -1) >= 0 else {}
        if rt.get("ref") or rt.get("k") == "ptr":
            for path in s.ret:
                out += sub(path)
        return out

    def comma(self, e):
        n = e
        items = []
        while n["k"] == "call" and n.get("op") == ",":
            items.append(n["a"][0])
            n = n["o"]
        if not (n["k"] == "call" and n.get("op") == "<<"):
            for x in self.kids(e):
                self.val(x)
            return []
        items.append(n["a"][0])
        ds = self.ev(n["o"])
        for i in reversed(items):
            self.val(i)
        for p, f in ds:
            self.write(p, e, f if len(ds) == 1 else False)
        return ds

    def extern(self, e, name, op, obj, args):
        short = name.rsplit("::", 1)[-1]
        eig = name.startswith("Eigen::")
        argn = e["a"]
        if not eig and not name.startswith("std::vector") and not name.startswith("std::deque"):
            self.s.ext.add(name)

        def readargs():
            pm = e.get("pm", [])
            for i, ds in enumerate(args):
                mode = pm[i] if i < len(pm) else "v"
                for p, f in ds:
                    self.read(p, argn[i], f)
                    if mode in ("r", "p") and not eig and name not in ("std::move", "std::forward") and "operator<<" not in name:
                        self.write(p, argn[i], False)
        if name in ("std::move", "std::forward") and args:
            return args[0]
        if op == ">>" and not eig:
            # extraction from a stream: stores its last operand (the value is not used when the stream fails)
            for ds in ([obj] if obj is not None else []) + args[:-1]:
                for p, f in ds:
                    self.read(p, e, f)
                    self.write(p, e, False)
            for p, f in args[-1]:
                self.write(p, e, f if len(args[-1]) == 1 else False)
            return obj if obj is not None else args[0]
        if obj is not None:
            ocls = obj_class(name)
            if op in ("=", "+=", "-=", "*=", "/="):
                for ds in args:
                    for p, f in ds:
                        self.read(p, e, f)
                for p, f in obj:
                    if op != "=":
                        self.read(p, e, f)
                    self.write(p, e, f if len(obj) == 1 else False)
                return obj
            if eig and (short in VIEWS or op in ELEM_OPS):
                readargs()
                full = short in FULLVIEW
                if full:
                    return obj
                out = []
                for p, f in obj:
                    reg = False
                    d = self.shape(self.p.type(e["o"]))
                    if f is True:
                        if d:
                            self.dims[p[:MAXLEN]] = d
                        else:
                            d = self.dims.get(p[:MAXLEN])
                        if d:
                            reg = self.region(short if op not in ELEM_OPS else op, e, d, e.get("ta", []))
                        if not reg and argn and len(argn) == 1 and self.loopvar(argn[0]) is not None and (
                                short in ("col", "row") or op in ("()", "[]")):
                            reg = ("L", short if op not in ELEM_OPS else "row", self.loopvar(argn[0]))
                    elif isinstance(f, tuple):
                        reg = False
                    elif f and d:
                        # view of a view: shift the inner region
                        inner = self.region(short if op not in ELEM_OPS else op, e, d, e.get("ta", []))
                        if inner:
                            i0 = min(x for x, _ in f)
                            j0 = min(y for _, y in f)
                            reg = frozenset((x + i0, y + j0) for x, y in inner)
                    out.append((p, reg))
                return out
            if eig and short in SETTERS:
                readargs()
                for p, f in obj:
                    self.write(p, e, f if len(obj) == 1 else False)
                return obj
            if eig and short in RESIZERS:
                readargs()
                a = [self.cint(x) for x in argn]
                for p, f in obj:
                    if short.startswith("cons"):
                        self.read(p, e)
                    self.write(p, e, False)
                    if short == "resize" and f is True:
                        self.sdims[p[:MAXLEN]] = tuple(txt(x) for x in argn) + (("1",) if len(argn) == 1 else ())
                    if short == "resize" and f is True and a and None not in a:
                        self.dims[p[:MAXLEN]] = (a[0], a[1] if len(a) > 1 else 1)
                return obj
            if ocls in CONTAINERS:
                if op == "[]" or short in CONT_READ:
                    readargs()
                    if not e.get("cm") and ocls == "std::map" and op == "[]":
                        for p, f in obj:
                            self.write(p + ("[]",), e, False)
                    return [(p + ("[]",), False) for p, f in obj]
                if short in CONT_Q:
                    for p, f in obj:
                        self.read(p + ("#size",), e)
                    return []
                readargs()
                for p, f in obj:
                    if short in ("clear", "assign"):
                        self.write(p, e, f)
                    else:
                        self.write(p, e, False)
                        self.write(p + ("[]",), e, False)
                return []
            if "iterator" in name or ocls.startswith("std::_") or ocls.startswith("__gnu"):
                if op in ("*", "->", "++", "--"):
                    return obj
        readargs()
        if obj is not None:
            if eig and short == "compute":
                for p, f in obj:
                    self.write(p, e, f if len(obj) == 1 else False)
                return obj
            for p, f in obj:
                self.read(p, e, f)
                if not e.get("cm") and not e.get("st") and not (eig and not short in (
                        "normalize", "compute", "transposeInPlace", "swap", "rotate", "translate")):
                    self.write(p, e, False)
        return []

    # -- statements
    def stmt(self, s):
        if s is None:
            return
        if self.must is None and s["k"] not in ("case", "default", "blk"):
            return
        m = getattr(self, "s_" + s["k"], None)
        if m:
            return m(s)
        self.ev(s) if s["k"] in ("asg", "assert", "throw") else self.val_stmt(s)

    def val_stmt(self, s):
        if s["k"] == "call" or s["k"] == "un":
            self.ev(s)       # result discarded: not a read
        else:
            self.val(s)

    def s_blk(self, s):
        for x in s["s"]:
            self.stmt(x)

    def s_blkd(self, s):
        for d in s["s"]:
            self.s_decl(d)

    def s_decl(self, d):
        t = self.p.type(d)
        path = (("l", d["d"], d["n"]),)
        if d.get("static"):
            path = (("g", self.fn["q"] + "::" + d["n"]),)
            self.alias[d["d"]] = [(path, True)]
            if "init" in d:
                self.val(d["init"])
            return
        if "init" not in d:
            self.decl_uninit(path, d)
            return
        e = d["init"]
        if t.get("ref") or t.get("k") == "ptr":
            ds = self.ev(e)
            if ds and (t.get("ref") or not self.isptr(e) or e["k"] == "call"):
                self.alias[d["d"]] = ds
            else:
                for q, f in ds:
                    self.read(q, e)
                self.write(path, d)
            return
        if t.get("k") == "record" and "iterator" in t.get("c", "")[:200]:
            ds = self.ev(e["a"][0] if e["k"] == "ctor" and e["a"] else e)
            self.alias[d["d"]] = [(p, False) for p, f in ds]
            return
        if e["k"] == "ctor" and e.get("dflt") and not e["a"]:
            self.decl_uninit(path, d)
            self.construct(e, path)
            return
        if e["k"] == "ctor":
            self.decl_ctor(path, d)
        self.init(e, path, d)

    def decl_uninit(self, path, d):
        pass

    def decl_ctor(self, path, d):
        pass

    def s_ret(self, s):
        if s.get("e"):
            rt = self.p.types[self.fn["ret"]] if self.fn.get("ret", -1) >= 0 else {}
            ds = self.ev(s["e"])
            if rt.get("ref") or rt.get("k") == "ptr":
                for p, f in ds:
                    if self.visible(p):
                        self.s.ret.add(p)
                    if rt.get("const"):
                        self.read(p, s)
            else:
                for p, f in ds:
                    self.read(p, s, f)
        if self.must is not None:
            self.rets.append(frozenset(self.must))
        self.must = None

    def s_if(self, s):
        if s.get("cvar"):
            self.s_decl(s["cvar"])
        self.val(s["c"])
        k = constant(s["c"])
        if k is not None:
            self.stmt(s["a"] if k else s.get("b"))
            return
        m = set(self.must) if self.must is not None else None
        self.stmt(s["a"])
        ma = self.must
        self.must = m
        if s.get("b"):
            self.stmt(s["b"])
        self.must = self.jn(ma, self.must)

    def body(self, b, inc=None):
        m = set(self.must) if self.must is not None else None
        self.brk.append([])
        self.stmt(b)
        if inc is not None:
            if self.must is None:
                self.must = set(m) if m is not None else None
            if self.must is not None:
                self.ev(inc)
        self.brk.pop()
        self.must = m

    def const_loop(self, s):
        """(decl id, values) of a counting loop with constant bounds and no early exit"""
        i, c, inc = s.get("i"), s.get("c"), s.get("inc")
        if not i or not c or not inc or i["k"] != "blkd" or len(i["s"]) != 1 or "init" not in i["s"][0]:
            return None
        d = i["s"][0]
        lo = self.cint(d["init"])
        if lo is None or c["k"] != "bin" or c["op"] not in ("<", "<=", "!="):
            return None
        v = c["a"]
        while v["k"] == "cast":
            v = v["e"]
        hi = self.cint(c["b"])
        if v["k"] != "var" or v.get("d") != d["d"] or hi is None:
            return None
        if inc["k"] != "un" or inc["op"] != "++" or inc["e"].get("d") != d["d"]:
            return None
        if c["op"] == "<=":
            hi += 1
        if hi - lo > 64 or hi < lo:
            return None
        from .prog import walk
        for x in walk(s["b"]):
            if x["k"] in ("brk", "cnt", "ret"):
                return None
            if x["k"] in ("asg", "un") and (x.get("a") or x.get("e") or {}).get("d") == d["d"] and x.get("op") not in ("-", "+", "!"):
                return None
        return d["d"], range(lo, hi)

    def s_for(self, s):
        cl = self.const_loop(s)
        if cl is not None and self.must is not None:
            for v in cl[1]:
                self.consts[cl[0]] = v
                self.stmt(s["b"])
            self.consts.pop(cl[0], None)
            return
        if s.get("i"):
            self.stmt(s["i"])
        if s.get("c"):
            self.val(s["c"])
        cl = self.counting(s)
        if cl is None:
            self.body(s["b"], s.get("inc"))
            return
        d, bound = cl
        self.loopv[d] = bound
        m = set(self.must) if self.must is not None else None
        self.stmt(s["b"])
        done = [x for x in (self.must or ()) if isinstance(x[-1], tuple) and x[-1][0] == "L" and x[-1][2] == d]
        del self.loopv[d]
        self.must = m
        if m is not None:
            for x in done:
                sd = self.sdims.get(x[:-1])
                if sd and sd[1 if x[-1][1] == "col" else 0] == bound:
                    self.must.add(x[:-1])      # every column / row / coefficient stored by the loop

    def loopvar(self, e):
        while e["k"] == "cast":
            e = e["e"]
        return e["d"] if e["k"] == "var" and e.get("d") in self.loopv else None

    def counting(self, s):
        """(decl id, text of the bound) of a loop i = 0; i < bound; ++i without early exit"""
        i, c, inc = s.get("i"), s.get("c"), s.get("inc")
        if not i or not c or not inc or i["k"] != "blkd" or len(i["s"]) != 1 or "init" not in i["s"][0]:
            return None
        d = i["s"][0]
        if self.cint(d["init"]) != 0 or c["k"] != "bin" or c["op"] not in ("<", "!="):
            return None
        v = c["a"]
        while v["k"] == "cast":
            v = v["e"]
        if v["k"] != "var" or v.get("d") != d["d"]:
            return None
        if inc["k"] != "un" or inc["op"] != "++" or inc["e"].get("d") != d["d"]:
            return None
        from .prog import walk
        for x in walk(s["b"]):
            if x["k"] in ("brk", "cnt", "ret"):
                return None
        return d["d"], txt(c["b"])

    def s_while(self, s):
        self.val(s["c"])
        self.body(s["b"])

    def s_do(self, s):
        self.stmt(s["b"])
        if self.must is not None:
            self.val(s["c"])

    def s_rfor(self, s):
        ds = self.ev(s["r"])
        self.alias[s["v"]["d"]] = [(p + ("[]",), False) for p, f in ds]
        if not self.p.type(s["v"]).get("ref"):
            for p, f in ds:
                self.read(p, s)
        self.body(s["b"])

    def s_brk(self, s):
        self.must = None

    s_cnt = s_brk

    def s_nop(self, s):
        pass

    def s_try(self, s):
        m = set(self.must) if self.must is not None else None
        self.stmt(s["b"])
        for h in s.get("h", []):
            self.must = m
            self.stmt(h)

    def s_sw(self, s):
        self.val(s["c"])
        m = set(self.must) if self.must is not None else None
        body = s["b"]["s"] if s["b"]["k"] == "blk" else [s["b"]]
        outs = None
        cur = None
        hasdef = False
        for x in body:
            lab = False
            while x is not None and x["k"] in ("case", "default"):
                lab = True
                hasdef |= x["k"] == "default"
                x = x["s"]
            if lab:
                cur = self.jn(cur, set(m) if m is not None else None)
            if x is None or cur is None:
                continue
            if x["k"] == "brk":
                outs = cur if outs is None else self.jn(outs, cur)
                cur = None
                continue
            self.must = cur
            self.stmt(x)
            cur = self.must
        if cur is not None:
            outs = cur if outs is None else self.jn(outs, cur)
        if not hasdef:
            outs = m if outs is None else self.jn(outs, m)
        self.must = outs

    def s_case(self, s):
        self.stmt(s["s"])

    s_default = s_case
