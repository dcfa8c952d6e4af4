"""Generic abstract interpreter over the extracted, resolved program.

Structured, disjunctive, context-sensitive by inlining: calls to functions of the repository are analysed in
the caller's context (so extracting or merging helpers does not change a verdict).  What is computed is decided
by a Domain; the core only tracks boolean/enumeration/integer constants held by locations, so that flag tests
correlate along a path.  Nothing is executed and no path condition is handed to a solver: loops are iterated to
a fixed point of the abstract state, states are joined when there are too many.
"""
from .prog import strip_t, AnalysisError

MAXSTATES = 96
MAXDEPTH = 24

# Eigen members that give a view of (part of) their object
VIEWS = {
    "segment", "head", "tail", "block", "col", "row", "diagonal", "noalias", "array", "matrix", "topLeftCorner",
    "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "topRows", "bottomRows", "leftCols", "rightCols",
    "middleRows", "middleCols", "x", "y", "z", "w", "coeffRef", "coeff", "vec", "coeffs", "derived", "eval_",
    "triangularView", "selfadjointView",
}
ELEM_OPS = {"()", "[]"}
SETTERS = {"setZero", "setIdentity", "setConstant", "setOnes", "setRandom", "fill", "setLinSpaced"}
RESIZERS = {"resize", "conservativeResize", "resizeLike"}
CONTAINERS = ("std::vector", "std::deque", "std::map", "std::list", "std::set", "std::array")


class Val:
    __slots__ = ("loc", "sub", "v", "c", "cls", "node", "fn")

    def __init__(self, loc=None, sub=(), v=None, c=None, cls=None, node=None):
        self.loc = loc      # access path (tuple) of the designated object, or None for a pure value
        self.sub = sub      # view descriptors applied to loc (partial designation)
        self.v = v          # domain value
        self.c = c          # constant (bool/int/float/enum value) if known
        self.cls = cls      # exact class (record id) if known
        self.node = node
        self.fn = None

    def __repr__(self):
        return "Val(%s%s v=%r c=%r)" % (self.loc, self.sub or "", self.v, self.c)


class St:
    """abstract state: constants per location + domain data (dict of immutables)"""
    __slots__ = ("c", "d")

    def __init__(self, c=None, d=None):
        self.c = {} if c is None else c
        self.d = {} if d is None else d

    def copy(self):
        return St(dict(self.c), dict(self.d))

    def key(self):
        return (frozenset(self.c.items()), frozenset((k, v) for k, v in self.d.items()))


class Frame:
    _n = 0

    def __init__(self, fn, this, cls, parent=None, callnode=None):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.this = this
        self.cls = cls
        self.parent = parent
        self.callnode = callnode
        self.bind = {}       # decl id -> Val (reference/pointer aliases)
        self.lambdas = {}
        self.depth = 0 if parent is None else parent.depth + 1

    def stack(self):
        f = self
        out = []
        while f:
            out.append(f)
            f = f.parent
        return out


class Outcome:
    __slots__ = ("n", "r", "b", "k")

    def __init__(self, n=None, r=None, b=None, k=None):
        self.n = n or []   # normal completion states
        self.r = r or []   # (state, Val) returned
        self.b = b or []   # break
        self.k = k or []   # continue


class Domain:
    def order(self, op, a, b):
        """truth of a comparison, when the domain knows it"""
        return None

    def const(self, I, node, c):
        return None

    def read(self, I, st, val, node, fr):
        return st.d.get(val.loc)

    def write(self, I, st, lhs, val, node, fr, op="="):
        pass

    def op(self, I, st, name, node, vals, fr):
        return None

    def call(self, I, st, node, fn, obj, args, fr):
        return None

    def ext(self, I, st, node, name, obj, args, fr):
        return None

    def assume(self, I, st, node, val, pol, fr):
        return st

    def on_assert(self, I, st, node, fr):
        """called before the assertion condition is assumed"""
        pass

    def assert_fails(self, I, node, fr):
        """the assertion fails in every state that reaches it"""
        pass

    def on_enter(self, I, st, fr):
        pass

    def on_return(self, I, st, fr, val, node):
        pass

    def on_decl(self, I, st, loc, node, fr):
        pass

    def join(self, a, b):
        out = {}
        for k in a.keys() & b.keys():
            if a[k] == b[k]:
                out[k] = a[k]
        return out

    def keep(self, loc):
        """whether the constant held by loc is worth distinguishing states"""
        return True

    def want_inline(self, I, fn, fr):
        return True

    def copy_obj(self, I, st, dst, src, node, fr):
        """whole-object copy src -> dst: copies per-location domain data below src"""
        n = len(src)
        for k in [k for k in st.d if isinstance(k, tuple) and k[: len(dst)] == dst]:
            del st.d[k]
        for k in [k for k in st.d if isinstance(k, tuple) and k[:n] == src]:
            st.d[dst + k[n:]] = st.d[k]


class Interp:
    pointers = False      # pointers kept in variables are followed

    def __init__(self, prog, dom, maxstates=MAXSTATES):
        self.prog = prog
        self.dom = dom
        self.maxstates = maxstates
        self.tmp = 0
        self.calls_inlined = 0
        self.funcs_seen = set()
        self.track_ints = True

    # ---- states
    def merge(self, states):
        out, seen = [], {}
        for s in states:
            drop = [k for k in s.c if not self.dom.keep(k)]
            for k in drop:
                del s.c[k]
            k = s.key()
            if k not in seen:
                seen[k] = s
                out.append(s)
        if len(out) > self.maxstates:
            acc = out[0]
            for s in out[1:]:
                acc = self.join(acc, s)
            return [acc]
        return out

    def merge_rv(self, rv):
        out, seen = [], set()
        for s, v in rv:
            k = (s.key(), v.loc, v.sub, v.v if _hashable(v.v) else id(v.v), v.c)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        if len(out) > self.maxstates:
            acc, av = out[0]
            for s, v in out[1:]:
                acc = self.join(acc, s)
                if av.c != v.c:
                    av = Val(av.loc if av.loc == v.loc else None, (), av.v if av.v == v.v else None)
            return [(acc, av)]
        return out

    def join(self, a, b):
        c = {k: a.c[k] for k in a.c.keys() & b.c.keys() if a.c[k] == b.c[k]}
        return St(c, self.dom.join(a.d, b.d))

    # ---- entry
    def run(self, fn, st=None, this=("this",), cls=None, args=None):
        """analyses fn as an entry point; returns [(state, Val)] at exit"""
        st = st or St()
        fr = Frame(fn, this, cls or fn.get("cls"))
        for i, p in enumerate(fn["p"]):
            if args and i < len(args) and args[i] is not None:
                fr.bind[p["d"]] = args[i]
            else:
                t = self.prog.type(p)
                fr.bind[p["d"]] = Val(loc=(("arg", i, p["n"]),), cls=t.get("rid"), node=p)
        return self.body(fn, st, fr)

    def body(self, fn, st, fr):
        self.funcs_seen.add(fn["usr"])
        self.dom.on_enter(self, st, fr)
        states = [st]
        if fn.get("kind") == "ctor":
            states = self.ctor_inits(fn, states, fr)
        if fn.get("body") is None:
            if fn.get("defaulted") and fn.get("kind") != "ctor":
                pass
            return [(s, Val()) for s in states]
        out = self.exec(fn["body"], states, fr)
        rv = list(out.r)
        for s in out.n:
            self.dom.on_return(self, s, fr, None, None)
            rv.append((s, Val()))
        return self.merge_rv(rv)

    def ctor_inits(self, fn, states, fr):
        for ini in fn.get("inits", []):
            if not ini.get("e"):
                continue
            nxt = []
            for st in states:
                if ini.get("mem"):
                    loc = fr.this + (ini["mem"],)
                    nxt.extend(self.init_loc(ini["e"], st, fr, loc, ini))
                elif ini.get("base") or ini.get("deleg"):
                    e = ini["e"]
                    if e["k"] == "ctor":
                        nxt.extend(s for s, _ in self.construct(e, st, fr, fr.this))
                    else:
                        nxt.append(st)
                else:
                    nxt.append(st)
            states = self.merge(nxt)
        return states

    def init_loc(self, e, st, fr, loc, node, tnode=None):
        """initialises the object at loc from expression e"""
        if e["k"] == "ctor" and not (e.get("copy") or e.get("move")):
            return [s for s, _ in self.construct(e, st, fr, loc)]
        out = []
        src = e
        if e["k"] == "ctor" and e["a"]:
            src = e["a"][0]
        for s, v in self.eval(src, st, fr):
            if v.loc is not None and not v.sub and self.is_obj(src):
                self.copy_obj(s, loc, v.loc, node, fr)
                if e["k"] != "ctor" or True:
                    vv = Val(v=self.dom.read(self, s, v, src, fr), c=s.c.get(v.loc), node=src)
                    self.write(s, Val(loc=loc, node=node), vv, node, fr, "init")
            else:
                v = self.rv(s, v, src, fr)
                self.write(s, Val(loc=loc, node=node), v, node, fr, "init")
            out.append(s)
        return out

    def is_obj(self, n):
        t = self.prog.type(n)
        return t.get("k") == "record" and "rid" in t

    def copy_obj(self, st, dst, src, node, fr):
        n = len(src)
        if dst == src:
            return
        new = {dst + k[n:]: v for k, v in st.c.items() if k[:n] == src}
        for k in [k for k in st.c if k[: len(dst)] == dst]:
            del st.c[k]
        st.c.update(new)
        self.dom.copy_obj(self, st, dst, src, node, fr)

    # ---- values
    def rv(self, st, val, node, fr):
        """rvalue of val: reads the location"""
        if val.loc is None:
            return val
        c = val.c
        if c is None and not val.sub:
            c = st.c.get(val.loc)
        return Val(v=self.dom.read(self, st, val, node, fr), c=c, node=val.node or node, cls=val.cls, loc=None)

    def write(self, st, lhs, val, node, fr, op="="):
        if lhs.loc is not None:
            if not lhs.sub:
                n = len(lhs.loc)
                if op in ("=", "init"):
                    for k in [k for k in st.c if k[:n] == lhs.loc and len(k) > n] if op == "=" and val.loc is None else []:
                        del st.c[k]
                    if val.c is not None:
                        st.c[lhs.loc] = val.c
                    else:
                        st.c.pop(lhs.loc, None)
                else:
                    st.c.pop(lhs.loc, None)
        self.dom.write(self, st, lhs, val, node, fr, op)

    def temp(self):
        self.tmp += 1
        return (("tmp", self.tmp),)

    # ---- expressions: eval -> [(state, Val)]
    def eval(self, e, st, fr):
        if e is None:
            return [(st, Val())]
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.e_other(e, st, fr)
        return m(e, st, fr)

    def eval_list(self, es, st, fr):
        """-> [(state, [Val...])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.eval(e, s, fr):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def cval(self, e):
        if "cv" in e:
            t = self.prog.type(e)
            return bool(e["cv"]) if t.get("k") == "bool" else e["cv"]
        return None

    def e_int(self, e, st, fr):
        return [(st, Val(c=e["v"], v=self.dom.const(self, e, e["v"]), node=e))]

    e_flt = e_int

    def e_bool(self, e, st, fr):
        return [(st, Val(c=e["v"], v=self.dom.const(self, e, e["v"]), node=e))]

    def e_str(self, e, st, fr):
        return [(st, Val(c=True, v=self.dom.const(self, e, None), node=e))]

    def e_null(self, e, st, fr):
        return [(st, Val(c=0, v=self.dom.const(self, e, 0), node=e))]

    def e_zero(self, e, st, fr):
        return [(st, Val(c=0, v=self.dom.const(self, e, 0), node=e))]

    def e_sizeof(self, e, st, fr):
        return [(st, Val(c=e.get("cv"), node=e))]

    def e_enum(self, e, st, fr):
        return [(st, Val(c=e["cv"], v=self.dom.const(self, e, e["cv"]), node=e))]

    def e_typeid(self, e, st, fr):
        return [(st, Val(node=e))]

    def e_fn(self, e, st, fr):
        v = Val(node=e)
        v.fn = e
        return [(st, v)]

    def e_var(self, e, st, fr):
        if e["s"] in ("local", "param"):
            f = fr
            while f is not None:
                if e["d"] in f.bind:
                    b = f.bind[e["d"]]
                    v = Val(loc=b.loc, sub=b.sub, v=b.v, c=b.c, cls=b.cls, node=e)
                    if isinstance(b.fn, tuple) or (self.pointers and b.fn == "ptr"):
                        v.fn = b.fn
                    return [(st, v)]
                if getattr(f, "lexical", None) and e["d"] not in f.own:
                    f = f.lexical
                else:
                    break
            loc = (("v", (f or fr).id, e["d"], e["n"]),)
            return [(st, Val(loc=loc, node=e, cls=self.prog.type(e).get("rid")))]
        c = self.cval(e)
        if c is None:
            c = e.get("cvf")
        return [(st, Val(loc=(("g", e["n"]),), c=c, node=e, cls=self.prog.type(e).get("rid")))]

    def e_this(self, e, st, fr):
        f = fr
        while f.this is None and getattr(f, "lexical", None):
            f = f.lexical
        return [(st, Val(loc=f.this, cls=f.cls, node=e))]

    def deref(self, v, node, st=None):
        """object designated by pointer value v"""
        if v.loc is None:
            return Val(v=v.v, node=node, cls=v.cls)
        last = v.loc[-1]
        t = self.prog.type(v.node) if v.node else {}
        if v.node is not None and v.node.get("k") in ("this",):
            return v
        if v.node is not None and v.node.get("k") == "un" and v.node.get("op") == "&":
            return v
        if v.fn == "ptr":
            return v
        if t.get("k") == "ptr":
            return Val(loc=v.loc + ("->",), node=node)
        return v

    def e_mem(self, e, st, fr):
        out = []
        for s, b in self.eval(e["b"], st, fr):
            if e.get("arrow"):
                b = self.deref(b, e["b"], s)
            cls = self.prog.type(e).get("rid")
            if b.loc is None:
                # member of a temporary
                out.append((s, Val(v=self.dom.op(self, s, "." + e["n"], e, [b], fr), node=e, cls=cls)))
            else:
                out.append((s, Val(loc=b.loc + (e["n"],), node=e, cls=cls)))
        return out

    def e_cast(self, e, st, fr):
        out = []
        for s, v in self.eval(e["e"], st, fr):
            t = self.prog.types[e["to"]] if e["to"] >= 0 else {}
            if e.get("ck") in ("ToVoid",):
                out.append((s, Val(node=e)))
                continue
            if e.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic") or t.get("ref"):
                v2 = Val(loc=v.loc, sub=v.sub, v=v.v, c=v.c, cls=v.cls, node=v.node or e)
                v2.fn = v.fn
                out.append((s, v2))
                continue
            v = self.rv(s, v, e, fr)
            c = v.c
            if c is None:
                c = self.cval(e)
            if c is not None and t.get("k") == "bool":
                c = bool(c)
            elif isinstance(c, bool) and t.get("k") in ("int", "float"):
                c = int(c)
                out.append((s, Val(v=self.dom.const(self, e, c), c=c, node=e)))
                continue
            out.append((s, Val(v=self.dom.op(self, s, "cast", e, [v], fr), c=c, node=e)))
        return out

    def e_un(self, e, st, fr):
        op = e["op"]
        out = []
        for s, v in self.eval(e["e"], st, fr):
            if op == "*":
                out.append((s, self.deref(v, e["e"], s)))
            elif op == "&":
                r = Val(loc=v.loc, sub=v.sub, v=v.v, c=None if v.loc is None else 1, cls=v.cls, node=e)
                r.fn = "ptr"
                out.append((s, r))
            elif op in ("++", "--"):
                old = self.rv(s, v, e, fr)
                nv = None
                if isinstance(old.c, int) and not isinstance(old.c, bool):
                    nv = old.c + (1 if op == "++" else -1)
                val = Val(v=self.dom.op(self, s, op, e, [old], fr), c=nv, node=e)
                self.write(s, v, val, e, fr, op)
                if nv is not None and v.loc is not None and not v.sub:
                    s.c[v.loc] = nv
                out.append((s, old if e.get("post") else Val(loc=v.loc, sub=v.sub, node=e)))
            elif op == "!":
                v = self.rv(s, v, e, fr)
                c = None if v.c is None else (not v.c)
                out.append((s, Val(v=self.dom.op(self, s, "!", e, [v], fr), c=c, node=e)))
            else:
                v = self.rv(s, v, e, fr)
                c = None
                if isinstance(v.c, (int, float)):
                    c = -v.c if op == "-" else v.c if op == "+" else None
                out.append((s, Val(v=self.dom.op(self, s, "u" + op, e, [v], fr), c=c, node=e)))
        return out

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            ts, fs = self.cond(e, [st], fr)
            return [(s, Val(c=True, node=e)) for s in ts] + [(s, Val(c=False, node=e)) for s in fs]
        if op == ",":
            out = []
            for s, _ in self.eval(e["a"], st, fr):
                out.extend(self.eval(e["b"], s, fr))
            return out
        out = []
        for s, (a, b) in self.eval_list([e["a"], e["b"]], st, fr):
            a = self.rv(s, a, e["a"], fr)
            b = self.rv(s, b, e["b"], fr)
            c = self.cval(e)
            if c is None:
                c = e.get("cvf")
            if c is None and a.c is not None and b.c is not None:
                c = fold(op, a.c, b.c)
            if c is None and op in ("<", ">", "<=", ">="):
                c = self.dom.order(op, a, b)
            out.append((s, Val(v=self.dom.op(self, s, op, e, [a, b], fr), c=c, node=e)))
        return out

    def e_asg(self, e, st, fr):
        out = []
        for s, b in self.eval(e["b"], st, fr):
            b = self.ptr_or_rv(s, b, e["b"], fr)
            for s2, a in self.eval(e["a"], s, fr):
                if e["op"] != "=":
                    old = self.rv(s2, a, e["a"], fr)
                    c = fold(e["op"][:-1], old.c, b.c) if old.c is not None and b.c is not None else None
                    val = Val(v=self.dom.op(self, s2, e["op"][:-1], e, [old, b], fr), c=c, node=e)
                    self.write(s2, a, val, e, fr, e["op"])
                    if c is not None and a.loc is not None and not a.sub:
                        s2.c[a.loc] = c
                else:
                    self.write(s2, a, b, e, fr, "=")
                out.append((s2, Val(loc=a.loc, sub=a.sub, node=e)))
        return out

    def ptr_or_rv(self, s, v, node, fr):
        if v.fn == "ptr":
            return v
        return self.rv(s, v, node, fr)

    def e_cond(self, e, st, fr):
        ts, fs = self.cond(e["c"], [st], fr)
        out = []
        for s in ts:
            out.extend(self.eval(e["a"], s, fr))
        for s in fs:
            out.extend(self.eval(e["b"], s, fr))
        return self.merge_rv(out)

    def e_idx(self, e, st, fr):
        out = []
        for s, (b, i) in self.eval_list([e["b"], e["i"]], st, fr):
            i = self.rv(s, i, e["i"], fr)
            if b.loc is not None:
                out.append((s, Val(loc=b.loc + ("[]",), node=e)))
            else:
                out.append((s, Val(v=self.dom.op(self, s, "idx", e, [b, i], fr), node=e)))
        return out

    def e_init(self, e, st, fr):
        out = []
        for s, vs in self.eval_list(e["a"], st, fr):
            vs = [self.rv(s, v, n, fr) for v, n in zip(vs, e["a"])]
            if len(vs) == 1:
                out.append((s, Val(v=vs[0].v, c=vs[0].c, node=e)))
            else:
                out.append((s, Val(v=self.dom.op(self, s, "init", e, vs, fr), node=e)))
        return out

    def e_assert(self, e, st, fr):
        self.dom.on_assert(self, st, e, fr)
        ts, fs = self.cond(e["c"], [st], fr)
        if not ts:
            self.dom.assert_fails(self, e, fr)
        return [(s, Val(node=e)) for s in self.merge(ts)]

    def e_lambda(self, e, st, fr):
        v = Val(node=e)
        v.fn = ("lambda", e, fr)
        return [(st, v)]

    def e_new(self, e, st, fr):
        loc = (("new", e.get("l")),)
        v = Val(loc=loc, node=e, c=1)
        v.fn = "ptr"
        if e.get("e"):
            return [(s, v) for s in self.init_loc(e["e"], st, fr, loc, e)]
        return [(st, v)]

    def e_del(self, e, st, fr):
        return [(s, Val(node=e)) for s, _ in self.eval(e["e"], st, fr)]

    def e_throw(self, e, st, fr):
        return []

    def e_other(self, e, st, fr):
        out = []
        ch = e.get("a") or []
        if not isinstance(ch, list):
            ch = []
        for s, vs in self.eval_list(ch, st, fr):
            out.append((s, Val(v=self.dom.op(self, s, e.get("cls", e["k"]), e, vs, fr), node=e)))
        return out

    # ---- construction
    def e_ctor(self, e, st, fr):
        if (e.get("copy") or e.get("move")) and len(e["a"]) == 1:
            # copy of an existing object: a new temporary holding the same abstract value
            out = []
            for s, v in self.eval(e["a"][0], st, fr):
                if v.loc is None:
                    out.append((s, v))
                elif self.is_obj(e):
                    fn = self.prog.funcs.get(e.get("id"))
                    if fn and fn.get("body") is not None and not fn.get("defaulted") and not fn.get("implicit"):
                        loc = self.temp()
                        for s2, _ in self.inline(fn, s, fr, loc, e["cls"], [v], e):
                            out.append((s2, Val(loc=loc, cls=e.get("cls"), node=e)))
                    else:
                        loc = self.temp()
                        self.copy_obj(s, loc, v.loc, e, fr)
                        out.append((s, Val(loc=loc, cls=e.get("cls"), node=e)))
                else:
                    out.append((s, self.rv(s, v, e["a"][0], fr)))
            return out
        if self.is_obj(e):
            loc = self.temp()
            return [(s, Val(loc=loc, cls=e.get("cls"), node=e)) for s, _ in self.construct(e, st, fr, loc)]
        out = []
        for s, vs in self.eval_list(e["a"], st, fr):
            if self.dom_wants_lvals(e):
                pass
            vs2 = [self.rv(s, v, n, fr) for v, n in zip(vs, e["a"])]
            t = self.prog.type(e)
            out.append((s, Val(v=self.dom.op(self, s, "ctor", e, vs2, fr), c=None, node=e)))
        return out

    def dom_wants_lvals(self, e):
        return False

    def construct(self, e, st, fr, loc):
        """runs constructor expression e on location loc; -> [(state, Val)]"""
        r = self.dom.call(self, st, e, self.prog.funcs.get(e.get("id")), Val(loc=loc, node=e, cls=e.get("cls")), None, fr)
        if r is not None:
            return r
        fn = self.prog.funcs.get(e.get("id"))
        out = []
        for s, vs in self.eval_list(e["a"], st, fr):
            if fn is not None and (fn.get("body") is not None or fn.get("inits")) and not (
                    (e.get("copy") or e.get("move")) and fn.get("defaulted")):
                for s2, v in self.inline(fn, s, fr, loc, e["cls"], vs, e):
                    out.append((s2, Val(loc=loc, cls=e.get("cls"), node=e)))
            elif (e.get("copy") or e.get("move")) and vs and vs[0].loc is not None:
                self.copy_obj(s, loc, vs[0].loc, e, fr)
                out.append((s, Val(loc=loc, node=e)))
            else:
                vs2 = [self.rv(s, v, n, fr) for v, n in zip(vs, e["a"])]
                val = Val(v=self.dom.op(self, s, "ctor", e, vs2, fr), node=e)
                self.write(s, Val(loc=loc, node=e), val, e, fr, "init")
                out.append((s, Val(loc=loc, node=e)))
        return out

    # ---- calls
    def e_call(self, e, st, fr):
        name = strip_t(e.get("f", "")) if "f" in e else None
        if name is None:
            return self.indirect(e, st, fr)
        op = e.get("op")
        # comma initialiser
        if op in (",", "<<") and "CommaInitializer" in (self.prog.type(e).get("cls") or ""):
            return self.comma(e, st, fr)
        out = []
        es = ([e["o"]] if "o" in e else []) + e["a"]
        # std::function / lambda call
        for s, vs in self.eval_list(es, st, fr):
            obj = vs[0] if "o" in e else None
            args = vs[1:] if "o" in e else vs
            if obj is not None and e.get("arrow"):
                obj = self.deref(obj, e["o"], s)
            out.extend(self.call1(e, name, s, fr, obj, args))
        return self.merge_rv(out)

    def call1(self, e, name, st, fr, obj, args):
        fn = self.prog.funcs.get(e.get("id")) if e.get("id") else None
        if op_is_lambda_call(e) and obj is not None and isinstance(obj.fn, tuple):
            return self.call_lambda(obj.fn, e, st, fr, args)
        if obj is not None and e.get("op") == "()" and obj.loc in getattr(self, "lambda_at", {}):
            return self.call_lambda(self.lambda_at[obj.loc], e, st, fr, args)
        if fn is None and e.get("id") and e.get("virt") and obj is not None and obj.cls:
            fn2 = self.prog.resolve_virtual(e["id"], obj.cls)
            fn = fn2
        elif fn is not None and e.get("virt") and obj is not None:
            if obj.cls:
                fn = self.prog.resolve_virtual(e["id"], obj.cls) or fn
            elif obj.loc is not None and obj.loc[-1] == "->":
                # dynamic type unknown
                r = self.dom.call(self, st, e, fn, obj, args, fr)
                if r is not None:
                    return r
                return self.opaque(e, name, st, fr, obj, args)
        r = self.dom.call(self, st, e, fn, obj, args, fr)
        if r is not None:
            return r
        if fn is not None and fn.get("body") is not None and self.dom.want_inline(self, fn, fr):
            depth = fr.depth
            rec = sum(1 for f in fr.stack() if f.fn is fn)
            if depth < MAXDEPTH and rec < 2:
                this = None
                cls = None
                if obj is not None and not fn.get("static"):
                    if obj.loc is None:
                        loc = self.temp()
                        self.write(st, Val(loc=loc, node=e), obj, e, fr, "init")
                        this = loc
                    else:
                        this = obj.loc
                    cls = obj.cls or fn.get("cls")
                    if obj.sub:
                        this = None
                if this is not None or obj is None or fn.get("static"):
                    return self.inline(fn, st, fr, this, cls, args, e)
        return self.opaque(e, name, st, fr, obj, args)

    def inline(self, fn, st, fr, this, cls, args, node):
        self.calls_inlined += 1
        nf = Frame(fn, this, cls or fn.get("cls"), fr, node)
        if fn.get("kind") == "ctor":
            nf.cls = fn.get("cls") if cls is None else cls
        for i, p in enumerate(fn["p"]):
            t = self.prog.type(p)
            a = args[i] if args is not None and i < len(args) else Val()
            if t.get("ref") or (t.get("k") == "ptr" and a.fn == "ptr") or isinstance(a.fn, tuple) or (
                    isinstance(a.fn, dict)):
                if a.loc is None and not isinstance(a.fn, tuple):
                    # reference to a temporary value
                    loc = (("v", nf.id, p["d"], p["n"]),)
                    self.write(st, Val(loc=loc, node=p), a, p, nf, "init")
                    b = Val(loc=loc, cls=a.cls, node=p)
                else:
                    b = Val(loc=a.loc, sub=a.sub, v=a.v, c=a.c, cls=a.cls, node=a.node)
                    b.fn = a.fn
                nf.bind[p["d"]] = b
            else:
                loc = (("v", nf.id, p["d"], p["n"]),)
                if a.loc is not None and not a.sub and t.get("k") == "record" and "rid" in t:
                    self.copy_obj(st, loc, a.loc, p, nf)
                    nf.bind[p["d"]] = Val(loc=loc, cls=a.cls or t.get("rid"), node=p)
                else:
                    v = self.rv(st, a, a.node or node, fr)
                    self.write(st, Val(loc=loc, node=p), v, p, nf, "init")
        out = []
        for s, v in self.body(fn, st, nf):
            rt = self.prog.types[fn["ret"]] if fn.get("ret", -1) >= 0 else {}
            # drop the callee's locals
            self.drop(s, nf.id)
            out.append((s, v))
        return self.merge_rv(out)

    def drop(self, st, fid):
        for d in (st.c, st.d):
            for k in [k for k in d if isinstance(k, tuple) and k and isinstance(k[0], tuple) and k[0][0] == "v" and k[0][1] == fid]:
                del d[k]

    def call_lambda(self, lam, e, st, fr, args):
        _, node, lfr = lam
        nf = Frame(lfr.fn, lfr.this, lfr.cls, fr, e)
        nf.lexical = lfr
        nf.own = own_vars(node)
        for i, p in enumerate(node["p"]):
            t = self.prog.type(p)
            a = args[i] if i < len(args) else Val()
            if t.get("ref") and a.loc is not None:
                nf.bind[p["d"]] = a
            else:
                loc = (("v", nf.id, p["d"], p["n"]),)
                v = self.rv(st, a, e, fr)
                self.write(st, Val(loc=loc, node=p), v, p, nf, "init")
        out = self.exec(node["body"], [st], nf)
        rv = list(out.r) + [(s, Val()) for s in out.n]
        for s, _ in rv:
            self.drop(s, nf.id)
        return self.merge_rv(rv)

    def indirect(self, e, st, fr):
        out = []
        fe = e.get("fe")
        es = ([fe] if fe else []) + e["a"]
        for s, vs in self.eval_list(es, st, fr):
            args = vs[1:] if fe else vs
            f = vs[0] if fe else None
            if f is not None and isinstance(f.fn, tuple):
                out.extend(self.call_lambda(f.fn, e, s, fr, args))
                continue
            for a, n in zip(args, e["a"]):
                self.rv(s, a, n, fr)
            r = self.dom.ext(self, s, e, "<indirect>", f, args, fr)
            out.append((s, r if isinstance(r, Val) else Val(v=r, node=e)))
        return out

    def comma(self, e, st, fr):
        items = []
        n = e
        while n["k"] == "call" and n.get("op") == ",":
            items.append(n["a"][0])
            n = n["o"]
        if not (n["k"] == "call" and n.get("op") == "<<"):
            return self.e_other(e, st, fr)
        items.append(n["a"][0])
        items.reverse()
        out = []
        for s, vs in self.eval_list([n["o"]] + items, st, fr):
            rvs = [self.rv(s, v, x, fr) for v, x in zip(vs[1:], items)]
            val = Val(v=self.dom.op(self, s, "comma", e, rvs, fr), node=e)
            self.write(s, vs[0], val, e, fr, "comma")
            out.append((s, Val(loc=vs[0].loc, sub=vs[0].sub, node=e)))
        return out

    def opaque(self, e, name, st, fr, obj, args):
        """call to a function without analysable body (Eigen, std, unknown virtual)"""
        short = name.rsplit("::", 1)[-1]
        eig = name.startswith("Eigen::")
        op = e.get("op")
        argn = e["a"]
        r = self.dom.ext(self, st, e, name, obj, args, fr)
        if r is not None:
            return r if isinstance(r, list) else [(st, r if isinstance(r, Val) else Val(v=r, node=e))]
        if obj is not None:
            ocls = obj_class(name)
            if op in ("=", "+=", "-=", "*=", "/=") and (eig or True):
                return self.opaque_assign(e, op, st, fr, obj, args)
            if eig and (short in VIEWS or op in ELEM_OPS):
                avs = tuple(self.rv(st, a, n, fr) for a, n in zip(args, argn))
                if obj.loc is not None:
                    d = (short if op not in ELEM_OPS else op, tuple(a.c for a in avs), tuple(e.get("ta", [])), e.get("_id", id(e)))
                    return [(st, Val(loc=obj.loc, sub=obj.sub + (ViewD(d, avs, e),), node=e))]
                return [(st, Val(v=self.dom.op(self, st, "." + d_name(short, op), e, [obj] + list(avs), fr), node=e))]
            if eig and short in SETTERS:
                avs = [self.rv(st, a, n, fr) for a, n in zip(args, argn)]
                val = Val(v=self.dom.op(self, st, short, e, avs, fr), node=e)
                self.write(st, obj, val, e, fr, short)
                return [(st, Val(loc=obj.loc, sub=obj.sub, node=e))]
            if eig and short in RESIZERS:
                avs = [self.rv(st, a, n, fr) for a, n in zip(args, argn)]
                val = Val(v=self.dom.op(self, st, short, e, avs, fr), node=e)
                self.write(st, obj, val, e, fr, short)
                return [(st, Val(loc=obj.loc, sub=obj.sub, node=e))]
            if ocls in CONTAINERS:
                return self.container(e, ocls, short, op, st, fr, obj, args)
            if "iterator" in name or ocls.startswith("std::_") or ocls.startswith("__gnu"):
                if op in ("*", "->"):
                    return [(st, Val(loc=obj.loc, node=e, cls=self.rec_of(e)))]
                if op in ("++", "--"):
                    return [(st, Val(loc=obj.loc, node=e))]
        # generic: read const args, havoc mutable reference args
        vals = []
        pm = e.get("pm", [])
        for i, (a, n) in enumerate(zip(args, argn)):
            mode = pm[i] if i < len(pm) else "v"
            if mode in ("r", "p") and a.loc is not None and not (eig and short.startswith("operator")) and not name.startswith("std::forward") and not name.startswith("std::move"):
                self.write(st, a, Val(v=None, node=e), e, fr, "havoc")
                vals.append(a)
            else:
                vals.append(self.rv(st, a, n, fr))
        if name in ("std::move", "std::forward") and args:
            return [(st, args[0])]
        if obj is not None:
            o = self.rv(st, obj, e["o"], fr)
            if not e.get("cm") and not e.get("st") and obj.loc is not None and not (eig and not self.mutates(short, e)):
                self.write(st, obj, Val(v=None, node=e), e, fr, "method:" + short)
            vals = [o] + vals
        c = self.cval(e)
        if op in ("==", "!=") and c is None and len(vals) == 2 and vals[0].c is not None and vals[1].c is not None:
            c = fold(op, vals[0].c, vals[1].c)
        return [(st, Val(v=self.dom.op(self, st, op or short, e, vals, fr), c=c, node=e))]

    def mutates(self, short, e):
        return short in ("normalize", "compute", "solveInPlace", "transposeInPlace", "swap", "setFromTwoVectors", "rotate",
                         "translate", "setQuaternion", "applyOnTheLeft", "applyOnTheRight", "adjointInPlace", "reverseInPlace",
                         "stableNormalize", "addTo", "subTo", "evalTo")

    def rec_of(self, e):
        return self.prog.type(e).get("rid")

    def opaque_assign(self, e, op, st, fr, obj, args):
        a = args[0] if args else Val()
        n = e["a"][0] if e["a"] else e
        if op == "=" and a.loc is not None and not a.sub and obj.loc is not None and not obj.sub and self.is_obj(n):
            src = Val(v=self.dom.read(self, st, a, n, fr), c=st.c.get(a.loc), node=n)
            self.copy_obj(st, obj.loc, a.loc, e, fr)
            src.loc = a.loc
            self.dom.write(self, st, obj, src, e, fr, "copy")
            return [(st, Val(loc=obj.loc, node=e, cls=obj.cls))]
        b = self.ptr_or_rv(st, a, n, fr)
        if op != "=":
            old = self.rv(st, obj, e["o"], fr)
            val = Val(v=self.dom.op(self, st, op[:-1], e, [old, b], fr), node=e)
        else:
            val = b
        self.write(st, obj, val, e, fr, op)
        return [(st, Val(loc=obj.loc, sub=obj.sub, node=e, cls=obj.cls))]

    def container(self, e, ocls, short, op, st, fr, obj, args):
        argn = e["a"]
        if op == "[]" or short in ("at", "front", "back", "begin", "end", "find", "rbegin", "cbegin", "upper_bound", "lower_bound"):
            for a, n in zip(args, argn):
                self.rv(st, a, n, fr)
            if obj.loc is not None:
                return [(st, Val(loc=obj.loc + ("[]",), node=e, cls=self.rec_of(e)))]
            return [(st, Val(node=e))]
        if short in ("size", "empty", "count", "max_size", "capacity", "data"):
            loc = (obj.loc or self.temp()) + ("#size",)
            v = self.rv(st, Val(loc=loc, node=e), e, fr)
            return [(st, Val(v=self.dom.op(self, st, short, e, [v], fr), c=None, node=e))]
        vals = [self.rv(st, a, n, fr) if not self.is_obj(n) else a for a, n in zip(args, argn)]
        for v in vals:
            if v.loc is not None:
                self.rv(st, v, e, fr)
        val = Val(v=self.dom.op(self, st, short, e, vals, fr), node=e)
        self.write(st, obj, val, e, fr, "cont:" + short)
        return [(st, Val(loc=None, node=e))]

    # ---- conditions
    def cond(self, e, states, fr):
        """-> (true states, false states)"""
        k = e["k"]
        if k == "bin" and e["op"] == "&&":
            t1, f1 = self.cond(e["a"], states, fr)
            t2, f2 = self.cond(e["b"], t1, fr)
            return self.merge(t2), self.merge(f1 + f2)
        if k == "bin" and e["op"] == "||":
            t1, f1 = self.cond(e["a"], states, fr)
            t2, f2 = self.cond(e["b"], f1, fr)
            return self.merge(t1 + t2), self.merge(f2)
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["e"], states, fr)
            return f, t
        if k == "cast" and e.get("e") and self.prog.type(e).get("k") == "bool":
            return self.cond(e["e"], states, fr)
        T, F = [], []
        for st in states:
            for s, v in self.eval(e, st, fr):
                loc = v.loc if not v.sub else None
                r = self.rv(s, v, e, fr)
                c = r.c
                if c is None:
                    c = self.cval(e)
                if c is not None:
                    (T if c else F).append(s)
                    (s2,) = (s,)
                    a = self.dom.assume(self, s, e, v, bool(c), fr)
                    if a is None:
                        (T if c else F).pop()
                    continue
                st_t, st_f = s, s.copy()
                self.refine(st_t, e, v, True, fr)
                self.refine(st_f, e, v, False, fr)
                at = self.dom.assume(self, st_t, e, v, True, fr)
                af = self.dom.assume(self, st_f, e, v, False, fr)
                if at is not None:
                    T.append(at)
                if af is not None:
                    F.append(af)
        return self.merge(T), self.merge(F)

    def refine(self, st, e, v, pol, fr):
        if v.loc is not None and not v.sub and self.prog.type(e).get("k") == "bool":
            st.c[v.loc] = pol
            return
        # x == const
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            eq = (e["op"] == "==") == pol
            for a, b in ((e["a"], e["b"]), (e["b"], e["a"])):
                cb = self.cval(b) if "cv" in b else (b.get("v") if b["k"] in ("int", "bool") else (0 if b["k"] == "null" else None))
                if cb is None:
                    continue
                if a["k"] in ("var", "mem"):
                    for s2, va in self.eval(a, st.copy(), fr):
                        if va.loc is not None and not va.sub:
                            tk = self.prog.type(a).get("k")
                            if eq:
                                st.c[va.loc] = cb
                            elif tk == "bool":
                                st.c[va.loc] = not cb
                    return

    # ---- statements
    def exec(self, s, states, fr):
        if s is None or not states:
            return Outcome(n=list(states))
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(s, states, fr)
        # expression statement
        out = []
        mark = self.tmp
        for st in states:
            out.extend(x for x, _ in self.eval(s, st, fr))
        self.gc(out, mark, fr)
        return Outcome(n=self.merge(out))

    def gc(self, states, mark, fr):
        """drops temporaries created since mark, unless a reference is bound to one"""
        if self.tmp == mark:
            return
        live = {b.loc[0] for b in fr.bind.values() if b.loc}
        for st in states:
            for d in (st.c, st.d):
                for k in [k for k in d if isinstance(k, tuple) and k and isinstance(k[0], tuple) and k[0][0] == "tmp"
                          and k[0][1] > mark and k[0] not in live]:
                    del d[k]

    def s_blk(self, s, states, fr):
        o = Outcome()
        cur = states
        for x in s["s"]:
            if x is None:
                continue
            r = self.exec(x, cur, fr)
            o.r += r.r
            o.b += r.b
            o.k += r.k
            cur = r.n
            if not cur:
                break
        o.n = cur
        return o

    def s_blkd(self, s, states, fr):
        cur = states
        for d in s["s"]:
            nxt = []
            mark = self.tmp
            for st in cur:
                nxt.extend(self.decl(d, st, fr))
            self.gc(nxt, mark, fr)
            cur = self.merge(nxt)
        return Outcome(n=cur)

    def decl(self, d, st, fr):
        t = self.prog.type(d)
        loc = (("v", fr.id, d["d"], d["n"]),)
        if d.get("static"):
            loc = (("g", d["n"]),)
            return [st]
        if "init" not in d:
            self.dom.on_decl(self, st, loc, d, fr)
            return [st]
        e = d["init"]
        if t.get("ref") or t.get("k") == "ptr":
            out = []
            for s, v in self.eval(e, st, fr):
                if isinstance(v.fn, tuple):
                    fr.bind[d["d"]] = v
                elif t.get("ref") or v.fn == "ptr":
                    if v.loc is not None:
                        fr.bind[d["d"]] = Val(loc=v.loc, sub=v.sub, cls=v.cls, node=d)
                        if v.fn == "ptr":
                            fr.bind[d["d"]].fn = "ptr"
                    else:
                        self.write(s, Val(loc=loc, node=d), v, d, fr, "init")
                else:
                    v = self.rv(s, v, e, fr)
                    self.write(s, Val(loc=loc, node=d), v, d, fr, "init")
                out.append(s)
            return out
        le = e
        while isinstance(le, dict) and le.get("k") in ("ctor", "cast", "init") and (le.get("e") or len(le.get("a") or []) == 1):
            le = le.get("e") or le["a"][0]
        if isinstance(le, dict) and le.get("k") == "lambda":
            v = Val(node=le)
            v.fn = ("lambda", le, fr)
            fr.bind[d["d"]] = v
            return [st]
        # iterators: bind as alias of the container element
        if "iterator" in t.get("c", "")[:200] and t.get("k") == "record" and "rid" not in t:
            out = []
            for s, v in self.eval(e["a"][0] if e["k"] == "ctor" and e["a"] else e, st, fr):
                if v.loc is not None:
                    fr.bind[d["d"]] = Val(loc=v.loc, cls=v.cls, node=d)
                out.append(s)
            return out
        if t.get("k") == "record" and ("rid" in t or self.whole(t)):
            return self.init_loc(e, st, fr, loc, d)
        if e["k"] == "ctor" and e.get("dflt") and not e["a"]:
            self.dom.on_decl(self, st, loc, d, fr)
            return [st]
        out = []
        for s, v in self.eval(e, st, fr):
            v = self.rv(s, v, e, fr)
            self.write(s, Val(loc=loc, node=d), v, d, fr, "init")
            out.append(s)
        return out

    def s_decl(self, s, states, fr):
        out = []
        for st in states:
            out.extend(self.decl(s, st, fr))
        return Outcome(n=out)

    def s_if(self, s, states, fr):
        if s.get("cvar"):
            states = self.s_decl(s["cvar"], states, fr).n
        t, f = self.cond(s["c"], [x for x in states], fr)
        a = self.exec(s["a"], t, fr) if t else Outcome()
        b = self.exec(s.get("b"), f, fr) if f else Outcome()
        return Outcome(self.merge(a.n + b.n), a.r + b.r, a.b + b.b, a.k + b.k)

    def loop(self, s, states, fr, cond, inc, body, do=False):
        o = Outcome()
        exits = []
        seen = {}
        cur = states
        for it in range(40):
            cur = [x for x in self.merge(cur) if x.key() not in seen]
            if not cur:
                break
            for x in cur:
                seen[x.key()] = True
            if it >= 6:
                acc = cur[0]
                for x in cur[1:]:
                    acc = self.join(acc, x)
                # widen towards what has been seen: drop integer constants
                acc.c = {k: v for k, v in acc.c.items() if isinstance(v, bool)}
                cur = [acc]
            inp = [x.copy() for x in cur]
            if cond is not None and not (do and it == 0):
                t, f = self.cond(cond, inp, fr)
            else:
                t, f = inp, []
            exits += f
            if not t:
                break
            r = self.exec(body, t, fr)
            o.r += r.r
            exits += r.b
            nxt = r.n + r.k
            if inc is not None:
                n2 = []
                for st in nxt:
                    n2.extend(x for x, _ in self.eval(inc, st, fr))
                nxt = n2
            if do and cond is not None:
                pass
            cur = nxt
        else:
            exits += cur
        o.n = self.merge(exits)
        return o

    def s_for(self, s, states, fr):
        pre = Outcome(n=states)
        if s.get("i"):
            pre = self.exec(s["i"], states, fr)
        return self.loop(s, pre.n, fr, s.get("c"), s.get("inc"), s["b"])

    def s_while(self, s, states, fr):
        return self.loop(s, states, fr, s["c"], None, s["b"])

    def s_do(self, s, states, fr):
        return self.loop(s, states, fr, s["c"], None, s["b"], do=True)

    def s_rfor(self, s, states, fr):
        out = []
        o = Outcome()
        v = s["v"]
        cur = []
        for st in states:
            for s2, r in self.eval(s["r"], st, fr):
                if r.loc is not None:
                    fr.bind[v["d"]] = Val(loc=r.loc + ("[]",), node=v, cls=self.prog.type(v).get("rid"))
                cur.append(s2)
        return self.loop(s, cur, fr, None, None, {"k": "maybe", "b": s["b"], "l": s["l"]})

    def s_maybe(self, s, states, fr):
        r = self.exec(s["b"], [x.copy() for x in states], fr)
        r.b = r.b + [x.copy() for x in states] + [x.copy() for x in r.n]
        return r

    def whole(self, t):
        """objects of a type outside the program, followed by parts"""
        return False

    def s_ret(self, s, states, fr):
        o = Outcome()
        for st in states:
            if s.get("e"):
                rt = self.prog.types[fr.fn["ret"]] if fr.fn.get("ret", -1) >= 0 else {}
                for s2, v in self.eval(s["e"], st, fr):
                    if not rt.get("ref") and v.loc is not None and v.fn != "ptr":
                        if rt.get("k") == "record" and ("rid" in rt or self.whole(rt)):
                            loc = self.temp()
                            self.copy_obj(s2, loc, v.loc, s, fr)
                            v = Val(loc=loc, cls=v.cls or rt.get("rid"), node=s)
                        else:
                            v = self.rv(s2, v, s["e"], fr)
                    self.dom.on_return(self, s2, fr, v, s)
                    o.r.append((s2, v))
            else:
                self.dom.on_return(self, st, fr, None, s)
                o.r.append((st, Val()))
        o.r = self.merge_rv(o.r)
        return o

    def s_brk(self, s, states, fr):
        return Outcome(b=list(states))

    def s_cnt(self, s, states, fr):
        return Outcome(k=list(states))

    def s_nop(self, s, states, fr):
        return Outcome(n=list(states))

    def s_s_(self, s, states, fr):
        return Outcome(n=list(states))

    def s_try(self, s, states, fr):
        a = self.exec(s["b"], [x.copy() for x in states], fr)
        for h in s.get("h", []):
            b = self.exec(h, [x.copy() for x in states], fr)
            a.n += b.n
            a.r += b.r
        return a

    def s_sw(self, s, states, fr):
        # evaluate the scrutinee, then enter each label
        body = s["b"]["s"] if s["b"]["k"] == "blk" else [s["b"]]
        o = Outcome()
        labels = []          # (index in body, case value or None for default)
        flat = []
        for x in body:
            while x is not None and x["k"] in ("case", "default"):
                labels.append((len(flat), self.cval(x["v"]) if x["k"] == "case" else "default",
                               x.get("v")))
                x = x["s"]
            flat.append(x)
        ends = []
        for st in states:
            for s2, v in self.eval(s["c"], st, fr):
                loc = v.loc if not v.sub else None
                r = self.rv(s2, v, s["c"], fr)
                cases = [c for _, c, _ in labels if c != "default"]
                hasdef = any(c == "default" for _, c, _ in labels)
                if not hasdef:
                    if r.c is None or r.c not in cases:
                        ends.append(s2.copy())
                for idx, c, vn in labels:
                    if r.c is not None:
                        if c != "default" and c != r.c:
                            continue
                        if c == "default" and r.c in cases:
                            continue
                    s3 = s2.copy()
                    if c != "default" and loc is not None and c is not None:
                        s3.c[loc] = c
                    rr = self.s_blk({"s": flat[idx:]}, [s3], fr)
                    o.r += rr.r
                    o.k += rr.k
                    ends += rr.n + rr.b
        o.n = self.merge(ends)
        return o

    def s_case(self, s, states, fr):
        return self.exec(s["s"], states, fr)

    s_default = s_case


class ViewD:
    """one view step: (method, constant args, template args), the argument values and the node"""
    __slots__ = ("d", "args", "node")

    def __init__(self, d, args, node):
        self.d = d
        self.args = args
        self.node = node

    @property
    def name(self):
        return self.d[0]

    def __eq__(self, o):
        return isinstance(o, ViewD) and self.d == o.d

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return "%s%s%s" % (self.d[0], self.d[1], self.d[2] or "")


def d_name(short, op):
    return op if op in ELEM_OPS else short


def own_vars(node):
    """variables declared by a lambda (parameters and locals)"""
    own = node.get("_own")
    if own is None:
        own = {p["d"] for p in node["p"]}
        todo = [node["body"]]
        while todo:
            n = todo.pop()
            if isinstance(n, dict):
                if "d" in n and "n" in n and n.get("k") != "var":
                    own.add(n["d"])
                todo.extend(n.values())
            elif isinstance(n, (list, tuple)):
                todo.extend(n)
        node["_own"] = own
    return own


def op_is_lambda_call(e):
    return e.get("op") == "()"


def obj_class(name):
    return name.rsplit("::", 1)[0]


def fold(op, a, b):
    try:
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if op == "<":
            return a < b
        if op == ">":
            return a > b
        if op == "<=":
            return a <= b
        if op == ">=":
            return a >= b
        a, b = [int(x) if isinstance(x, bool) else x for x in (a, b)]
        if isinstance(a, int) and isinstance(b, int):
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
            if op == "<<" and 0 <= b < 64:
                return a << b
            if op == ">>" and b >= 0:
                return a >> b
            if op == "%" and a >= 0 and b > 0:
                return a % b
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/" and b:
            return a // b if isinstance(a, int) and isinstance(b, int) and a >= 0 and b > 0 else a / b if isinstance(a, float) or isinstance(b, float) else None
    except Exception:
        return None
    return None


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False
