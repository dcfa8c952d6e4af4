"""Recognition and validation of keyed memos:  if (K != e) { V = F(e); K = e; }  ... use V.

A memo is sound when, outside constructors, K and V are written only under a comparison of the whole of K with the
whole of e, both are written there, K receives e, and what V receives depends on e and on constants only.
Both polarities, early returns and helpers called from the guarded branch are followed.
"""
from .prog import walk
from .effects import Walker, Effects
from .txt import txt


def comparison(c):
    """(a, b, equal) if the condition compares two whole objects for (in)equality"""
    if c["k"] == "un" and c["op"] == "!":
        r = comparison(c["e"])
        return (r[0], r[1], not r[2]) if r else None
    if c["k"] == "cast" and c.get("e"):
        return comparison(c["e"])
    if c["k"] == "call" and c.get("op") in ("==", "!="):
        a = ([c["o"]] if c.get("o") else []) + c["a"]
        if len(a) == 2:
            return a[0], a[1], c["op"] == "=="
    if c["k"] == "bin" and c["op"] in ("==", "!="):
        return c["a"], c["b"], c["op"] == "=="
    return None


def returns(s):
    """the statement ends by returning on every path"""
    if s is None:
        return False
    if s["k"] in ("ret", "throw"):
        return True
    if s["k"] == "blk":
        return any(returns(x) for x in s["s"])
    if s["k"] == "if":
        return returns(s.get("a")) and returns(s.get("b"))
    return False


class Memo:
    """validates the memos of one class"""

    def __init__(self, prog, eff, cls):
        self.p, self.eff, self.cls = prog, eff, cls
        self.pairs = []       # (Kpaths, Vpaths, fn)

    def scan(self):
        for b in self.p.bases(self.cls):
            for f in self.p.methods_of.get(b, ()):
                if f.get("body") and f.get("kind") not in ("ctor", "dtor"):
                    self.scan_fn(f)
        return self.pairs

    def paths(self, w, e):
        return {p for p, full in w.ev(e) if full is True and p and p[0] == "this" and len(p) > 1}

    def scan_fn(self, f):
        w = Walker(self.eff, f, self.cls)
        stack = [f["body"]]
        while stack:
            s = stack.pop()
            if s["k"] in ("blk", "blkd"):
                ss = s["s"]
                for i, x in enumerate(ss):
                    if x["k"] == "decl":
                        try:
                            w.stmt(x)
                        except Exception:
                            pass
                    if x["k"] in ("blk", "blkd"):
                        if x["k"] == "blkd":
                            w.stmt(x)
                        stack.append(x)
                    if x["k"] == "if":
                        cmp_ = comparison(x["c"])
                        if cmp_:
                            a, b, eq = cmp_
                            if eq:
                                if x.get("b") is not None:
                                    region = [x["b"]]
                                elif returns(x.get("a")):
                                    region = ss[i + 1:]
                                else:
                                    region = None
                            else:
                                region = [x["a"]]
                            if region is not None:
                                self.try_pair(f, w, a, b, region)
                                self.try_pair(f, w, b, a, region)

    def assigns(self, stmts, env, depth=0):
        """(lhs, lhs text, rhs, rhs text, env) of the whole-object assignments executed unconditionally, or None if
        the region contains something that is not understood"""
        out = []
        for s in stmts:
            k = s["k"]
            if k in ("blk", "blkd"):
                r = self.assigns(s["s"], env, depth)
                if r is None:
                    return None
                out += r
            elif k == "decl":
                if s.get("init"):
                    env[s["d"]] = txt(s["init"], env)
            elif k == "ret":
                continue
            elif k == "call" and s.get("op") == "=" and s.get("o"):
                out.append((s["o"], txt(s["o"], env), s["a"][0], txt(s["a"][0], env)))
            elif k == "asg" and s["op"] == "=":
                out.append((s["a"], txt(s["a"], env), s["b"], txt(s["b"], env)))
            elif k == "call" and s.get("id") in self.p.funcs and self.p.funcs[s["id"]].get("body") and depth < 4:
                g = self.p.funcs[s["id"]]
                e2 = {p["d"]: txt(a, env) for p, a in zip(g["p"], s["a"])}
                r = self.assigns([g["body"]], e2, depth + 1)
                if r is None:
                    return None
                out += r
            elif k in ("null",):
                continue
            else:
                # effect-free statement?
                w = Walker(self.eff, {"p": [], "file": "", "l": 0, "q": "", "usr": "tmp"}, self.cls)
                w.stmt(s)
                if any(p[0] == "this" for p in w.s.may):
                    return None
        return out

    def try_pair(self, f, w, key, arg, region):
        K = self.paths(w, key)
        if not K:
            return
        env = {}
        for s in walk(f["body"]):
            if s["k"] == "decl" and s.get("init") and self.p.type(s).get("k") != "ref":
                pass
        r = self.assigns(region, env)
        if r is None:
            return
        kt, at = txt(key), txt(arg)
        kw = [x for x in r if x[1] == kt]
        if len(kw) != 1 or kw[0][3] != at:
            return
        for lhs, lt, rhs, rt in r:
            if lt == kt:
                continue
            V = self.paths(w, lhs)
            if not V:
                continue
            # what V depends on: the argument, constants, nothing of the object
            w2 = Walker(self.eff, f, self.cls)
            w2.alias = dict(w.alias)
            w2.val(rhs)
            deps = {p for p in w2.s.ue if p[0] == "this"}
            if deps and rt != kt:
                deps = {p for p in deps if p not in K}
                if deps:
                    continue
            # accessor pairing: both through the same index arguments
            ka, va = index_args(w, f, key), index_args(w, f, lhs)
            if ka != va:
                continue
            self.pairs.append((frozenset(K), frozenset(V), f))


def index_args(w, f, e):
    """texts of the arguments of the accessor calls through which e designates its object"""
    if e["k"] == "var" and e.get("s") == "local":
        for s in walk(f["body"]):
            if s["k"] == "decl" and s.get("d") == e["d"] and s.get("init"):
                return index_args(w, f, s["init"])
        return ()
    if e["k"] == "call" and e.get("a") is not None and e.get("op") not in ("=",):
        return tuple(txt(a) for a in e["a"])
    return ()


def sound_memos(prog, eff, cls):
    """set of paths of cls that are keys or values of validated memos, with the reason a candidate was refused"""
    m = Memo(prog, eff, cls)
    m.scan()
    good = set()
    writers = {}
    for b in prog.bases(cls):
        for f in prog.methods_of.get(b, ()):
            if f.get("body") is None or f.get("kind") in ("ctor", "dtor"):
                continue
            if f.get("implicit") or f.get("defaulted"):
                continue
            w = Direct(eff, f, cls)
            w.run()
            for p in w.direct:
                writers.setdefault(p, set()).add(f["usr"])
    for K, V, f in m.pairs:
        # helpers reached from the guarded branch count as the memo function itself
        s = {f["usr"]}
        for x in walk(f["body"]):
            if x["k"] == "call" and x.get("id"):
                s.add(x["id"])
        ok = True
        for p in K | V:
            for q, ws in writers.items():
                if (q[: len(p)] == p or p[: len(q)] == q) and not ws <= s:
                    ok = False
        if ok:
            good |= K | V
    return good, m.pairs


class Direct(Walker):
    """paths of the object written by the function's own statements (not through calls of member functions)"""

    def __init__(self, *a):
        Walker.__init__(self, *a)
        self.direct = set()
        self.depth = 0

    def write(self, path, node, full=True):
        if path and path[0] == "this" and len(path) > 1:
            # attributed to the function whose text contains the node
            site = node if isinstance(node, dict) else {}
            if site.get("id") in self.p.funcs and site.get("k") == "call" and site.get("op") != "=":
                pass
            else:
                self.direct.add(path)
        return Walker.write(self, path, node, full)
