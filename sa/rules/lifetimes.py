"""P21: references and products stay clear of what is gone or overwritten.

  R1  no reference, pointer, iterator or view returned by a function (or kept in a variable) designates a local variable or the inside of a temporary
  R2  no reference, pointer or iterator into a container is used after the container was grown, shrunk or cleared
  R3  an assignment free of aliasing (noalias) reads its destination in none of its products; no assignment reads its destination at other
      places than the one it writes (transposed, shifted)
  R4  no call gives one object both as an operand and as the result of a function which still reads the operand after writing the result
  R5  no variable keeps a deferred expression whose operands are temporaries
Objects are access paths (variables, members, elements, views of matrices) over the resolved program; calls returning references are followed.
"""
from ..prog import walk, strip_t
from ..extract import AnalysisError

VIEWS = {"segment", "head", "tail", "block", "row", "col", "diagonal", "array", "matrix", "noalias", "derived", "leftCols", "rightCols", "topRows", "bottomRows",
         "middleRows", "middleCols", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "transpose", "adjoint", "reverse", "head<", "triangularView", "selfadjointView",
         "vec", "coeffs", "asDiagonal"}
SAMEVIEW = {"noalias", "array", "matrix", "derived", "coeffs"}
TURN = {"transpose", "adjoint", "reverse"}
ELEMS = {"operator[]", "operator()", "at", "coeff", "coeffRef", "x", "y", "z", "w"}
ENDS = {"front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "data", "insert", "emplace"}
CONTAINERS = ("std::vector", "std::deque", "std::map", "std::list", "std::set", "std::string", "std::basic_string", "std::unordered_map")
GROW = {"push_back", "emplace_back", "push_front", "insert", "resize", "clear", "erase", "pop_back", "pop_front", "assign", "reserve", "shrink_to_fit", "swap", "emplace"}
DEFERRED = ("Eigen::CwiseBinaryOp", "Eigen::CwiseUnaryOp", "Eigen::Product", "Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose", "Eigen::CwiseNullaryOp", "Eigen::ArrayWrapper",
            "Eigen::MatrixWrapper", "Eigen::CwiseUnaryView", "Eigen::Diagonal", "Eigen::DiagonalWrapper", "Eigen::Reverse", "Eigen::Map", "Eigen::Ref", "Eigen::NoAlias", "Eigen::TriangularView")


def short(q):
    return strip_t(q).rsplit("::", 1)[-1]


class Fn:
    """access paths of the expressions of a function"""

    def __init__(self, A, f):
        self.A, self.p, self.f = A, A.p, f
        self.vals = set()          # variables which are objects of their own
        self.alias = {}            # variable -> paths it designates
        self.params = {}
        for i, x in enumerate(f["p"]):
            if self.kind(self.p.type(x)):
                self.params[x["d"]] = i
            else:
                self.vals.add(x["d"])
        for n in walk(f.get("body")):
            if n.get("k") == "decl":
                self.decl(n)

    def kind(self, t):
        """'ref', 'ptr', 'it', 'view' or None"""
        if t.get("ref"):
            return "ref"
        s = t.get("c") or t.get("s") or ""
        if t.get("k") == "ptr":
            return "ptr"
        if "_iterator<" in s or "Rb_tree_iterator" in s or "Rb_tree_const_iterator" in s or "::iterator" in s or "::const_iterator" in s or "_Deque_iterator" in s:
            return "it"
        if any(s.startswith(v) or s.startswith("const " + v) for v in DEFERRED):
            return "view"

    def decl(self, n):
        k = self.kind(self.p.type(n))
        if k is None:
            self.vals.add(n["d"])
            return
        e = n.get("init")
        ps = self.path(e) if e else []
        if k == "ref" and (not ps) and e is not None and self.temp(e):
            ps = [("v", n["d"])]     # lifetime extended
        self.alias[n["d"]] = (k, ps, n)

    def temp(self, e):
        """e creates an object"""
        if e["k"] in ("ctor", "int", "flt", "bool", "bin"):
            return True
        if e["k"] == "cast":
            return self.temp(e["e"]) or not self.p.type(e).get("ref") and self.path(e) == []
        if e["k"] == "call":
            t = self.p.type(e)
            g = self.A.callee(e)
            if g is not None:
                t = self.p.type({"t": g["ret"]}) if "ret" in g else t
                return not t.get("ref") and t.get("k") != "ptr"
            return bool(t.get("rows")) and not self.path(e) and t.get("cls", "").startswith("Eigen::Matrix")
        return False

    def path(self, e, depth=0):
        """access paths e may designate (empty: a temporary or unknown)"""
        if e is None or depth > 12:
            return []
        k = e["k"]
        if k == "var":
            d = e["d"]
            if e.get("s") == "param" and d in self.params:
                return [("p", self.params[d])]
            if d in self.alias:
                return list(self.alias[d][1])
            if d in self.vals:
                return [("v", d)]
            return [("g", e["n"])] if e.get("s") not in ("local", "param") else [("v", d)]
        if k == "this":
            return [("this",)]
        if k == "mem":
            return [b + (e["n"],) for b in self.path(e["b"], depth + 1)]
        if k == "cast":
            return self.path(e["e"], depth + 1)
        if k == "un" and e["op"] in ("*", "&"):
            return self.path(e["e"], depth + 1)
        if k == "un" and e["op"] in ("++", "--"):
            return self.path(e["e"], depth + 1)
        if k == "cond":
            return self.path(e["a"], depth + 1) + self.path(e["b"], depth + 1)
        if k == "asg":
            return self.path(e["a"], depth + 1)
        if k == "ctor" and len(e["a"]) == 1 and self.kind(self.p.type(e)):
            return self.path(e["a"][0], depth + 1)
        if k != "call":
            return []
        n = short(e.get("f", ""))
        o = e.get("o")
        if o is None and e.get("op") and e["a"] and n.startswith("operator"):
            o = e["a"][0] if n in ("operator*", "operator->", "operator++", "operator--", "operator=") and len(e["a"]) <= 2 and self.kind(self.p.type(e["a"][0])) == "it" else None
        g = self.A.callee(e)
        if g is not None:
            if not self.p.type({"t": g["ret"]} if "ret" in g else {}).get("ref") and self.p.type({"t": g["ret"]} if "ret" in g else {}).get("k") != "ptr":
                return []
            out = []
            for r in self.A.returns(g):
                if r[0] == "this" and e.get("o") is not None:
                    out += [b + r[1:] for b in self.path(e["o"], depth + 1)]
                elif r[0] == "p" and r[1] < len(e["a"]):
                    out += [b + r[2:] for b in self.path(e["a"][r[1]], depth + 1)]
                elif r[0] == "g":
                    out.append(r)
            return out
        if o is None:
            return []
        if n in ("operator=", "operator+=", "operator-=", "operator*=", "setZero", "setIdentity", "setConstant", "setOnes", "normalize") or n in SAMEVIEW:
            return self.path(o, depth + 1)
        if n in ("operator*", "operator->", "get", "operator++", "operator--"):
            return self.path(o, depth + 1) if self.kind(self.p.type(o)) in ("it", "ptr") or "_ptr" in self.p.type(o).get("s", "") else []
        if n in VIEWS:
            key = (n,) + (tuple(e.get("ta") or ()) if n not in ("segment", "head", "tail") else ()) + tuple(self.const(a) for a in e["a"])
            return [b + (key,) for b in self.path(o, depth + 1)]
        if n in ELEMS:
            return [b + (("[]",) + tuple(self.const(a) for a in e["a"]) + ((n,) if n in "xyzw" else ()),) for b in self.path(o, depth + 1)]
        if n in ENDS:
            return [b + (("[]", "*"),) for b in self.path(o, depth + 1)]
        return []

    def const(self, a):
        if "cv" in a:
            return a["cv"]
        if a["k"] == "int":
            return a["v"]
        if a["k"] == "cast":
            return self.const(a["e"])
        return "?" + repr(shape(a))


def shape(n):
    """structure of an expression, places left out"""
    if isinstance(n, dict):
        return tuple((k, shape(v)) for k, v in sorted(n.items()) if k not in ("l", "co", "t", "le"))
    if isinstance(n, list):
        return tuple(shape(v) for v in n)
    return n


def isview(x):
    return isinstance(x, tuple)


def split(path):
    """(object, views)"""
    i = len(path)
    for j, x in enumerate(path):
        if j and isview(x) and not (x[0] == "[]" and any(not isview(y) for y in path[j:])):
            i = j
            break
    return path[:i], path[i:]


def region(views):
    """('seg', start, length) of a vector, when constant; None when unknown"""
    lo, n = 0, None
    for v in views:
        ints = [x for x in v[1:] if isinstance(x, int) or isinstance(x, str) and x.lstrip("-").isdigit()]
        ints = [int(x) for x in ints]
        if len(ints) != len(v) - 1:
            return None
        if v[0] == "segment" and len(ints) == 2:
            lo, n = lo + ints[0], ints[1]
        elif v[0] == "head" and len(ints) == 1:
            n = ints[0]
        elif v[0] == "[]" and len(ints) == 1:
            lo, n = lo + ints[0], 1
        else:
            return None
    return lo, n


def relation(a, b):
    """'same', 'over' (overlapping, otherwise placed), 'ahead' (b lies further than a), 'apart' or None (unknown)"""
    (x, v), (y, w) = split(a), split(b)
    if x != y:
        n = min(len(x), len(y))
        if x[:n] == y[:n]:
            return "within" if not v and not w else None
        return "apart"
    if v == w:
        return "same"
    tv, tw = [any(q[0] in TURN for q in z) for z in (v, w)]
    if tv != tw and not [q for q in v + w if q[0] not in TURN]:
        return "over"
    r, s = region(v), region(w)
    if r is None or s is None:
        return None
    (l1, n1), (l2, n2) = r, s
    if n1 is None and n2 is None:
        return "same" if l1 == l2 else None
    if n1 is not None and l1 + n1 <= l2 or n2 is not None and l2 + n2 <= l1:
        return "apart"
    return "same" if (l1, n1) == (l2, n2) else "ahead" if l2 > l1 else "over"


class Analysis:
    def __init__(self, prog):
        self.p = prog
        self.fns, self.rets = {}, {}

    def callee(self, e):
        u = e.get("id")
        if not u:
            return None
        g = self.p.funcs.get(u)
        return g if g is not None and g.get("body") is not None else None

    def fn(self, f):
        k = f["usr"]
        if k not in self.fns:
            self.fns[k] = Fn(self, f)
        return self.fns[k]

    def returns(self, g):
        k = g["usr"]
        if k not in self.rets:
            self.rets[k] = []
            F = self.fn(g)
            self.rets[k] = [r for n in walk(g["body"]) if n.get("k") == "ret" and n.get("e") for r in F.path(n["e"])]
        return self.rets[k]

    def static_locals(self, f):
        return {n["d"] for n in walk(f["body"]) if n.get("k") == "decl" and n.get("static")}


def inner(p, e):
    """the expression without the copies and conversions around it"""
    while True:
        if e["k"] == "cast" and not p.type(e).get("ref"):
            e = e["e"]
        elif e["k"] == "ctor" and len(e["a"]) == 1 and (e.get("copy") or e.get("move")):
            e = e["a"][0]
        else:
            return e


def place(A, f, n):
    return A.p.loc(f, n)


def name_of(f):
    return strip_t(f["q"]).replace("stateObservation::", "")


def says(F, path):
    names = {n["d"]: n["n"] for n in walk(F.f.get("body")) if n.get("k") == "decl"}
    out = []
    for x in path:
        if x == "v" or x == "p" or x == "g":
            continue
        if x == "this":
            out.append("this")
        elif isinstance(x, tuple):
            out.append("[..]" if x[0] == "[]" else x[0])
        elif isinstance(x, int):
            out.append(F.f["p"][x]["n"] if path[0] == "p" else names.get(x, next((q["n"] for q in F.f["p"] if q["d"] == x), "object")))
        else:
            out.append(str(x))
    return ".".join(out)


# ---- R1, R5
def gone(A, rep, f):
    F, p = A.fn(f), A.p
    fixed = A.static_locals(f)
    rt = F.kind(p.type({"t": f["ret"]})) if "ret" in f else None
    for n in walk(f["body"]):
        if n.get("k") == "ret" and n.get("e") is not None and rt:
            rep.count("returned_references")
            e = inner(p, n["e"])
            for r in F.path(e):
                if r[0] == "v" and r[1] not in fixed:
                    own = F.alias.get(r[1])
                    rep.bad("%s returns %s" % (name_of(f), says(F, r)), place(A, f, n),
                            "%s returns a reference to %s, which ends with the call%s" % (name_of(f), says(F, r), " (a temporary)" if own else ""))
            if not F.path(e) and rt != "ptr" and F.temp(e):
                rep.bad("%s returns temporary" % name_of(f), place(A, f, n), "%s returns a reference to a temporary" % name_of(f))
            if rt == "view":
                deferred(A, rep, F, n["e"], n, "%s returns an expression" % name_of(f), local=fixed)
        if n.get("k") == "decl" and n.get("init") is not None:
            k = F.kind(p.type(n))
            if k == "view":
                rep.count("deferred_variables")
                deferred(A, rep, F, n["init"], n, "%s is an expression" % n["n"])
            elif k:
                rep.count("reference_variables")
                t = inside_temp(F, n["init"])
                if t is not None:
                    rep.bad("%s %s inside temporary" % (name_of(f), n["n"]), place(A, f, n),
                            "%s designates the inside of a temporary, which ends with the declaration" % n["n"])
        if n.get("k") == "asg" and n["op"] == "=" and p.type(n["a"]).get("k") == "ptr":
            rep.count("stored_pointers")
            L = F.path(n["a"]) if n["a"]["k"] != "var" else []
            if n["a"]["k"] == "mem" and not any(q[0] == "v" for q in F.path(n["a"]["b"])):
                for r in F.path(n["b"]):
                    if r[0] == "v" and r[1] not in fixed:
                        rep.bad("%s keeps %s" % (name_of(f), says(F, r)), place(A, f, n), "%s keeps the address of %s, which ends with the call" % (name_of(f), says(F, r)))


def inside_temp(F, e, depth=0):
    """the temporary inside of which e designates something, if so"""
    p = F.p
    if depth > 8:
        return None
    if e["k"] == "cast" and (p.type(e).get("ref") or True):
        return inside_temp(F, e["e"], depth + 1)
    if e["k"] == "ctor" and len(e["a"]) == 1 and (e.get("copy") or e.get("move")) and F.kind(p.type(e)):
        return inside_temp(F, e["a"][0], depth + 1)
    if e["k"] == "mem" and not e.get("arrow"):
        return e["b"] if F.temp(e["b"]) and not F.path(e["b"]) else inside_temp(F, e["b"], depth + 1)
    if e["k"] == "un" and e["op"] == "&":
        return inside_temp(F, e["e"], depth + 1) or (e["e"] if F.temp(e["e"]) else None)
    if e["k"] != "call":
        return None
    g = F.A.callee(e)
    n = short(e.get("f", ""))
    if g is not None:
        t = p.type({"t": g["ret"]} if "ret" in g else {})
        if not t.get("ref") and t.get("k") != "ptr":
            return None
        for r in F.A.returns(g):
            b = e.get("o") if r[0] == "this" else e["a"][r[1]] if r[0] == "p" and r[1] < len(e["a"]) else None
            if b is not None and (F.temp(b) and not F.path(b) or inside_temp(F, b, depth + 1) is not None):
                return b
        return None
    o = e.get("o")
    if o is not None and (n in ENDS or n in VIEWS or n in ("operator[]", "at", "coeffRef", "c_str")) and F.kind(p.type(e)) is not None:
        if F.temp(o) and not F.path(o):
            return o
        return inside_temp(F, o, depth + 1)
    return None


def deferred(A, rep, F, e, at, what, local=None):
    """the operands of an expression kept for later which are gone by then"""
    p = A.p
    e = inner(p, e)
    for x in operands(F, e):
        t = p.type(x)
        if F.temp(x) and not F.path(x) and t.get("rows") and (t.get("c") or "").startswith("Eigen::Matrix<"):
            rep.bad("%s %s over temporary" % (name_of(F.f), what), place(A, F.f, at), "%s evaluated later, over a temporary which ends with the statement" % what)
        elif local is not None:
            for r in F.path(x):
                if r[0] == "v" and r[1] not in local and (t.get("c") or "").startswith("Eigen::Matrix<"):
                    rep.bad("%s %s over local" % (name_of(F.f), what), place(A, F.f, at), "%s evaluated later, over %s which ends with the call" % (what, says(F, r)))


def eigen(t):
    return bool(t.get("rows")) or "Eigen::" in (t.get("c") or "")[:20]


def operands(F, e):
    """the matrices an expression evaluated later reads"""
    p = F.p
    if e["k"] == "call" and F.A.callee(e) is None and eigen(p.type(e)) and not plain(p, e):
        out = []
        for x in ([e["o"]] if e.get("o") is not None else []) + e["a"]:
            if eigen(p.type(x)):
                out += operands(F, x)
        return out
    if e["k"] == "cast":
        return operands(F, e["e"])
    return [e]


def plain(p, e):
    """e gives a matrix of its own"""
    t = p.type(e)
    return (t.get("c") or "").startswith("Eigen::Matrix<") and not t.get("ref")


# ---- R3
def products(F, e, under=0):
    """(path, inside how many products, node) for what an expression reads while it is being assigned"""
    p = F.p
    k = e["k"]
    if k == "cast":
        yield from products(F, e["e"], under)
        return
    if k == "un":
        yield from products(F, e["e"], under)
        return
    if k == "call":
        n = short(e.get("f", ""))
        g = F.A.callee(e)
        args = ([e["o"]] if e.get("o") is not None else []) + e["a"]
        if e.get("op") == "*" and g is None and len(args) == 2 and all(eigen(p.type(a)) for a in args):
            for a in args:
                yield from products(F, a, under + 1)
            return
        ps = F.path(e)
        if ps:
            for q in ps:
                yield q, under, e
            return
        if g is not None or plain(p, e) or n in ("eval", "cross", "dot", "norm", "squaredNorm", "sum", "trace", "normalized"):
            return
        if eigen(p.type(e)):
            for a in args:
                if eigen(p.type(a)):
                    yield from products(F, a, under + 1 if n in ("inverse", "triangularView", "selfadjointView", "llt", "ldlt", "solve") else under)
        return
    if k == "ctor":
        if len(e["a"]) == 1 and not plain(p, e):
            yield from products(F, e["a"][0], under)
        return
    for q in F.path(e):
        yield q, under, e


def overlaps(A, rep, f):
    F, p = A.fn(f), A.p
    for n in walk(f["body"]):
        if n.get("k") != "call" or n.get("op") not in ("=", "+=", "-=") or n.get("o") is None or not n["a"] or not eigen(p.type(n["o"])):
            continue
        o, free = n["o"], False
        while o["k"] == "call" and short(o.get("f", "")) == "noalias":
            o, free = o["o"], True
        dest = F.path(o)
        if not dest:
            continue
        reads = list(products(F, n["a"][0]))
        rep.count("noalias_assignments" if free else "matrix_assignments")
        safe = not free and any(u for _, u, _ in reads)
        for w in dest:
            for r, under, x in reads:
                rep.count("operands")
                rel = relation(w, r)
                if (under == 1 or under and n["op"] == "=") and free and rel in ("same", "over", "ahead", "within") or not under and not safe and rel == "over":
                    rep.bad("%s %s reads itself" % (name_of(f), says(F, w)), place(A, f, n),
                            "%s is assigned %s while it reads %s" % (says(F, w), "without temporary" if free else "in place", says(F, r)))


# ---- R4
def joined(a, b):
    """the paths have a common part: 'same object' or one inside the other"""
    (x, v), (y, w) = split(a), split(b)
    n = min(len(x), len(y))
    if x[:n] != y[:n]:
        return False
    if len(x) == len(y) and v and w:
        return relation(a, b) != "apart"
    return True


class Order:
    """what a function writes, reads, and reads after having written something else (paths from its parameters and object)"""

    def __init__(self, A):
        self.A, self.p = A, A.p
        self.sums, self.doing = {}, set()
        self.over = {}
        for u, f in self.p.funcs.items():
            if f.get("body") is not None and "<dep>" not in f["q"]:
                for o in self.p.overrides(u):
                    self.over.setdefault(o, []).append(f)

    def overriders(self, usr):
        return self.over.get(usr, [])

    def sum(self, f):
        k = f["usr"]
        if k in self.sums:
            return self.sums[k]
        if k in self.doing:
            return set(), {}, {}
        self.doing.add(k)
        self.sums[k] = OrderOf(self, f).result()
        self.doing.discard(k)
        return self.sums[k]


def rooted(q):
    return q[0] in ("p", "this")


class OrderOf:
    LIMIT = 400

    def __init__(self, O, f):
        self.O, self.A, self.p, self.f = O, O.A, O.p, f
        self.F = self.A.fn(f)
        self.reads, self.pairs, self.hits = set(), {}, []
        self.written = {}

    def result(self):
        compared = any(n.get("k") == "bin" and n["op"] in ("==", "!=") and self.p.type(n["a"]).get("k") == "ptr" for n in walk(self.f["body"]))
        w = {}
        for i in self.f.get("inits", []):
            if i.get("e") is not None and i.get("n"):
                w = self.ex(i["e"], w)
        w = self.st(self.f["body"], w)
        if w is not None:
            self.written.update(w)
        if compared:
            return self.reads, {}, self.written
        return self.reads, dict(list(self.pairs.items())[:self.LIMIT]), self.written

    # statements: the paths written so far -> afterwards (None: does not go on)
    def st(self, n, w):
        if n is None or w is None:
            return w
        k = n.get("k")
        if k in ("blk", "blkd"):
            for s in n["s"]:
                w = self.st(s, w)
                if w is None:
                    break
            return w
        if k == "if":
            w = self.ex(n["c"], w)
            a, b = self.st(n["a"], dict(w)), self.st(n.get("b"), dict(w)) if n.get("b") else dict(w)
            if a is None or b is None:
                return b if a is None else a
            a.update(b)
            return a
        if k in ("for", "while", "do"):
            if n.get("i"):
                w = self.st(n["i"], w)
            if n.get("c"):
                w = self.ex(n["c"], w)
            b = self.st(n["b"], dict(w))
            if b is not None and n.get("inc"):
                b = self.ex(n["inc"], b)
            return {**w, **(b or {})}
        if k == "ret":
            if n.get("e"):
                w = self.ex(n["e"], w)
            self.written.update(w)
            return None
        if k in ("brk", "cont", "throw"):
            return None
        if k == "decl":
            if n.get("init") is not None:
                kind = self.F.kind(self.p.type(n))
                if kind and self.F.path(n["init"]):
                    return w
                w = self.ex(n["init"], w)
            return w
        if k == "assert":
            return w
        if k in ("sw", "try"):
            for key in ("c", "b"):
                if n.get(key):
                    r = self.st(n[key], dict(w))
                    w = w if r is None else r
            return w
        if k in ("case", "default"):
            return self.st(n.get("s"), w)
        return self.ex(n, w)

    def read(self, path, n, w):
        if not rooted(path):
            pass
        else:
            self.reads.add(path)
        for q, (at, src) in w.items():
            if root(q) != root(path) and rooted(q) and rooted(path) and not (src and root(src) == root(path)):
                self.pairs.setdefault((q, path), (self.p.loc(self.f, at), self.p.loc(self.f, n)))

    def write(self, paths, n, w, src=None):
        for q in paths:
            if q[0] in ("p", "this"):
                w[q] = (n, src)

    def ex(self, n, w):
        if n is None or not isinstance(n, dict) or "k" not in n:
            return w
        k = n["k"]
        ps = self.F.path(n) if k in ("var", "mem", "this", "call", "un", "cast") else []
        if k == "asg":
            w = self.ex(n["b"], w)
            w = self.index(n["a"], w)
            if n["op"] != "=":
                w = self.ex(n["a"], w)
            src = self.F.path(n["b"])
            self.write(self.F.path(n["a"]), n, w, src[0] if len(src) == 1 else None)
            return w
        if k == "un" and n["op"] in ("++", "--"):
            w = self.ex(n["e"], w)
            self.write(self.F.path(n["e"]), n, w)
            return w
        if k == "call":
            return self.call(n, w, ps)
        if k == "un" and n["op"] == "&":
            return self.index(n["e"], w)
        if k == "lambda":
            return w
        if ps and k in ("var", "mem", "cast", "un"):
            w = self.index(n, w)
            for q in ps:
                self.read(q, n, w)
            return w
        if k == "cond":
            w = self.ex(n["c"], w)
            return {**self.ex(n["a"], dict(w)), **self.ex(n["b"], dict(w))}
        for key, v in n.items():
            if isinstance(v, dict) and "k" in v:
                w = self.ex(v, w)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and "k" in x:
                        w = self.ex(x, w)
        return w

    def index(self, n, w):
        """what finding the place of n reads: the arguments of views and elements"""
        while n is not None:
            if n["k"] == "call":
                for a in n["a"]:
                    w = self.ex(a, w)
                n = n.get("o")
            elif n["k"] == "mem":
                n = n["b"]
            elif n["k"] in ("cast", "un"):
                n = n["e"]
            else:
                break
        return w

    def call(self, n, w, ps):
        g = self.A.callee(n)
        over = self.O.overriders(n["id"]) if n.get("virt") and n.get("id") else []
        if g is None and over:
            g = over[0]
        if g is None or "ret" not in g and g.get("kind") != "ctor":
            op, o = n.get("op"), n.get("o")
            if op in ("=", "+=", "-=", "*=", "/=") and o is not None:
                for a in n["a"]:
                    w = self.ex(a, w)
                w = self.index(o, w)
                if op != "=":
                    for q in self.F.path(o):
                        self.read(q, o, w)
                src = self.F.path(n["a"][0]) if len(n["a"]) == 1 and op == "=" else []
                self.write(self.F.path(o), n, w, src[0] if len(src) == 1 else None)
                return w
            if ps:
                w = self.index(n, w)
                for q in ps:
                    self.read(q, n, w)
                if not n.get("cm") and short(n.get("f", "")) in ("setZero", "setIdentity", "setConstant", "setOnes", "normalize"):
                    self.write(ps, n, w)
                return w
            if o is not None:
                w = self.ex(o, w)
            for a in n["a"]:
                w = self.ex(a, w)
            if o is not None and not n.get("cm") and (short(n.get("f", "")) in GROW | {"setZero", "setIdentity", "setConstant", "setOnes", "normalize", "conservativeResize", "transposeInPlace"} or op == "<<"):
                self.write(self.F.path(o), n, w)
            return w
        # a function of the library
        binds = {}
        o = n.get("o")
        if o is not None:
            w = self.index(o, w) if self.F.path(o) else self.ex(o, w)
            binds[("this",)] = self.F.path(o)
        for i, a in enumerate(n["a"]):
            if i >= len(g["p"]):
                break
            if self.F.kind(self.p.type(g["p"][i])):
                pa = self.F.path(a)
                binds[("p", i)] = pa
                w = self.index(a, w) if pa else self.ex(a, w)
            else:
                w = self.ex(a, w)
        todo = [g] + [x for x in over if x["usr"] != g["usr"]]
        reads, pairs, written = set(), {}, {}
        for h in todo:
            a, b, c = self.O.sum(h)
            reads, pairs, written = reads | a, {**pairs, **b}, {**written, **c}

        def sub(q):
            h = root(q)
            return [b + q[len(h):] for b in binds.get(h, ())]
        for q in list(reads)[:200]:
            for r in sub(q):
                self.read(r, n, w)
        for (a, b), where in pairs.items():
            for x in sub(a):
                for y in sub(b):
                    if root(x) == root(y) or x[0] == y[0] and x[0] in ("v", "g") and x[1] == y[1]:
                        if joined(x, y):
                            self.hits.append((n, g, x, y, where))
                    elif rooted(x) and rooted(y) and len(self.pairs) < self.LIMIT:
                        self.pairs.setdefault((x, y), where)
        for q, (at, src) in list(written.items()):
            s = sub(src) if src else []
            self.write(sub(q), n, w, s[0] if len(s) == 1 else None)
        return w


def root(q):
    return q[:2] if q[0] == "p" else q[:1]


def same_object(A, rep, f, order):
    O = OrderOf(order, f)
    O.result()
    rep.count("functions_followed")
    for n, g, x, y, (w, r) in O.hits:
        rep.bad("%s calls %s over %s" % (name_of(f), name_of(g), says(O.F, x)), A.p.loc(f, n),
                "%s gives %s to %s as a result and %s as an operand: the result is written (%s) before the operand is last read (%s)"
                % (name_of(f), says(O.F, x), name_of(g), says(O.F, y), w, r))


# ---- R2
def container(t):
    s = t.get("c") or ""
    for x in ("const ", "class "):
        if s.startswith(x):
            s = s[len(x):]
    for x in ("vector", "deque", "map", "list", "set", "basic_string", "unordered_map"):
        if s.startswith("std::%s<" % x) or s.startswith("std::__cxx11::%s<" % x):
            return x
    if s.startswith("Eigen::Matrix<") and (t.get("rows") == -1 or t.get("cols") == -1):
        return "matrix"


NODES = {"map", "list", "set", "unordered_map"}


def kills(cont, op, kind):
    """op on a container ends the references (kind 'ref', 'ptr') or iterators ('it') into it"""
    if op in ("clear", "assign", "swap", "="):
        return op != "swap"
    if cont == "matrix":
        return op in ("resize", "conservativeResize")
    if cont in NODES:
        return op in ("erase", "clear") or op == "resize"
    if cont == "deque":
        if op in ("push_back", "push_front", "emplace_back", "emplace_front"):
            return kind == "it"
        return op in GROW and op not in ("reserve",)
    return op in GROW


class Held:
    """references into containers kept in variables while the function goes on"""

    def __init__(self, A, rep, f, changes):
        self.A, self.rep, self.f, self.p, self.F, self.changes = A, rep, f, A.p, A.fn(f), changes
        self.kinds = {}
        self.cur = {}
        self.bad = []

    def run(self):
        self.st(self.f["body"], {}, frozenset())

    def within(self, path, cont):
        """path is inside the container"""
        return len(path) > len(cont) and path[:len(cont)] == cont

    # state: (held: variable -> paths, stale: variable -> where)
    def st(self, n, h, stale):
        if n is None or h is None:
            return h, stale
        k = n.get("k")
        if k in ("blk", "blkd"):
            for s in n["s"]:
                h, stale = self.st(s, h, stale)
                if h is None:
                    break
            return h, stale
        if k == "if":
            h, stale = self.ex(n["c"], h, stale)
            a, sa = self.st(n["a"], dict(h), stale)
            b, sb = self.st(n["b"], dict(h), stale) if n.get("b") else (dict(h), stale)
            if a is None or b is None:
                return (b, sb) if a is None else (a, sa)
            return {**a, **b}, sa | sb
        if k in ("for", "while", "do"):
            if n.get("i"):
                h, stale = self.st(n["i"], h, stale)
            out = h, stale
            for _ in range(2):
                if n.get("c"):
                    h, stale = self.ex(n["c"], h, stale)
                    out = {**out[0], **h}, out[1] | stale
                b, sb = self.st(n["b"], dict(h), stale)
                if b is None:
                    break
                if n.get("inc"):
                    b, sb = self.ex(n["inc"], b, sb)
                h, stale = {**h, **b}, stale | sb if not n.get("i") else sb
                out = {**out[0], **h}, out[1] | stale
            return out
        if k == "ret":
            if n.get("e"):
                self.ex(n["e"], h, stale)
            return None, stale
        if k in ("brk", "cont", "throw"):
            return None, stale
        if k == "decl":
            if n.get("init") is not None:
                h, stale = self.ex(n["init"], h, stale)
                kind = self.F.kind(self.p.type(n))
                if kind:
                    h = dict(h)
                    h[n["d"]] = (kind, tuple(self.F.path(n["init"])), n["n"])
                    self.rep.count("held_references")
                    stale = frozenset(x for x in stale if x[0] != n["d"])
            return h, stale
        if k == "assert":
            return h, stale
        if k in ("sw", "try"):
            for key in ("c", "b"):
                if n.get(key):
                    r, s2 = self.st(n[key], dict(h), stale)
                    h, stale = (h if r is None else r), stale | s2
            return h, stale
        if k in ("case", "default"):
            return self.st(n.get("s"), h, stale)
        return self.ex(n, h, stale)

    def ex(self, n, h, stale):
        k = n.get("k")
        if k == "var":
            for d, where in stale:
                if d == n["d"]:
                    self.rep.bad("%s %s after change" % (name_of(self.f), n["n"]), self.p.loc(self.f, n),
                                 "%s designates an element of a container which was changed since (%s)" % (n["n"], where))
            return h, stale
        if k == "asg" and n["op"] == "=" and n["a"]["k"] == "var" and n["a"]["d"] in h and h[n["a"]["d"]][0] != "ref":
            h, stale = self.ex(n["b"], h, stale)
            return self.reseat(n["a"]["d"], n["b"], h, stale)
        if k == "call" and n.get("op") == "=" and n.get("o") is not None and n["o"]["k"] == "var" and n["o"]["d"] in h and h[n["o"]["d"]][0] == "it":
            h, stale = self.ex(n["a"][0], h, stale)
            return self.reseat(n["o"]["d"], n["a"][0], h, stale)
        for key, v in n.items():
            if isinstance(v, dict) and "k" in v:
                h, stale = self.ex(v, h, stale)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and "k" in x:
                        h, stale = self.ex(x, h, stale)
        if k == "call":
            for path, cont, op in self.changes.of(self.F, n):
                for d, (kind, ps, nm) in h.items():
                    if any(self.within(q, path) for q in ps) and kills(cont, op, kind):
                        stale = stale | {(d, "%s at %s" % (op, self.p.loc(self.f, n)))}
        return h, stale

    def reseat(self, d, e, h, stale):
        h = dict(h)
        h[d] = (h[d][0], tuple(self.F.path(e)), h[d][2])
        return h, frozenset(x for x in stale if x[0] != d)


class Changes:
    """the containers a call changes"""

    def __init__(self, A):
        self.A, self.p, self.sums, self.doing = A, A.p, {}, set()

    def of(self, F, n):
        g = self.A.callee(n)
        if g is None:
            o, op = n.get("o"), short(n.get("f", ""))
            if o is None:
                return []
            c = container(self.p.type(o))
            if c and op in GROW | {"conservativeResize", "emplace_front"}:
                return [(q, c, op) for q in F.path(o)]
            if c and n.get("op") == "=" and c != "matrix":
                return [(q, c, "=") for q in F.path(o)]
            return []
        if n.get("virt") and self.p.overrides(g["usr"]):
            pass
        out = []
        for q, c, op in self.sum(g):
            h = root(q)
            bs = F.path(n["o"]) if h == ("this",) and n.get("o") is not None else F.path(n["a"][h[1]]) if h[0] == "p" and h[1] < len(n["a"]) else []
            out += [(b + q[len(h):], c, op) for b in bs]
        return out

    def sum(self, f):
        k = f["usr"]
        if k in self.sums:
            return self.sums[k]
        if k in self.doing:
            return []
        self.doing.add(k)
        F = self.A.fn(f)
        s = {x for n in walk(f["body"]) if n.get("k") == "call" for x in self.of(F, n) if rooted(x[0])}
        self.doing.discard(k)
        self.sums[k] = sorted(s, key=repr)[:60]
        return self.sums[k]


def run(prog, rep, tier):
    rep.rule("R1: what a function returns or stores by reference, pointer, iterator or view, and what a variable designates, is no local variable and no part of a temporary.")
    rep.rule("R2: no variable designating an element of a container is read after an operation (also through calls) that ends such references.")
    rep.rule("R3: no product operand of an assignment without temporary overlaps its destination; no assignment reads its destination at other places than it writes.")
    rep.rule("R4: no call gives the same object (or a part of it) as operand and as result to a function that reads the operand after writing the result.")
    rep.rule("R5: no variable keeps an expression evaluated later over a temporary.")
    A = Analysis(prog)
    order, changes = Order(A), Changes(A)
    for u, f in sorted(prog.funcs.items()):
        if not f.get("body") or "<dep>" in f["q"] or f["q"].rsplit("::", 1)[-1].startswith("operator new") or f["q"].rsplit("::", 1)[-1].startswith("operator delete"):
            continue
        rep.count("functions")
        gone(A, rep, f)
        overlaps(A, rep, f)
        same_object(A, rep, f, order)
        Held(A, rep, f, changes).run()
    rep.cov["call_pairs"] = sum(len(s[1]) for s in order.sums.values())
    for name, least in (("functions", 300), ("returned_references", 20), ("reference_variables", 15), ("noalias_assignments", 15), ("matrix_assignments", 100), ("held_references", 15), ("call_pairs", 50)):
        rep.need(name, least)
