"""Analysis of sequences of calls on an object: constructor, setters, then the operation under analysis, from the abstract state the
sequence leaves.  Arguments are abstract values; every path of every call is followed."""
from .fp import FpDomain, FpInterp, M, S
from .interp import St, Val
from .extract import AnalysisError


class Stops(AnalysisError):
    """every path of the call ends in a failing assertion"""

    def __init__(self, cls, name, fails):
        AnalysisError.__init__(self, "every path through %s::%s ends in a failing assertion" % (cls, name))
        self.items = [("%s %s assertion" % (cls.rsplit("::", 1)[-1], name), "%s:%s" % (fr.fn.get("file"), node.get("l")), "an assertion of %s always fails" % fr.fn["q"]) for node, fr in fails]


class Drive:
    def __init__(self, prog, cls, tag, consts=None, setup=None):
        self.prog, self.cls, self.tag, self.consts, self.setup = prog, cls, tag, consts or {}, setup
        self.oob = []
        self.fails = []

    def interp(self):
        d = FpDomain(consts=self.consts)
        d.oob, d.fails = self.oob, self.fails
        if self.setup:
            self.setup(d)
        return FpInterp(self.prog, d)

    def method(self, name, n=None, pick=None):
        seen = [self.cls] + list(self.prog.bases(self.cls))
        for c in seen:
            fs = [f for f in self.prog.methods_of[c] if f["q"].rsplit("::", 1)[-1] == name and f.get("body") is not None and (n is None or len(f["p"]) == n) and (pick is None or pick(f))]
            if fs:
                return fs[0]
        raise AnalysisError("%s: %s::%s not found" % (self.tag, self.cls, name))

    def seed(self, st, f, args):
        """args: M, int/float/bool (constant), or None (unknown); bound by reference parameters of the entry"""
        for i, p in enumerate(f["p"]):
            L = (("arg", i, p["n"]),)
            for d in (st.c, st.d):
                for k in [k for k in d if k[:1] == L]:
                    del d[k]
            a = args[i] if i < len(args) else None
            if isinstance(a, M):
                st.d[L] = a
            elif callable(a):
                a(st, L)
            elif a is not None:
                st.c[L] = a

    def new(self, args=(), pick=None):
        short = self.cls.rsplit("::", 1)[-1]
        fs = [f for f in self.prog.methods_of[self.cls] if f.get("kind") == "ctor" and not f.get("implicit") and len(f["p"]) == len(args) and (pick is None or pick(f))
              and not (len(f["p"]) == 1 and (self.prog.type(f["p"][0]).get("rid") == self.cls or short + " &" in self.prog.type(f["p"][0])["s"]))]
        if not fs:
            raise AnalysisError("%s: constructor of %s with %d arguments not found" % (self.tag, self.cls, len(args)))
        return self._run([St()], fs[0], args)[0] if False else [s for s, v in self._run([St()], fs[0], args)]

    def _run(self, states, f, args):
        out = []
        for st in states:
            I = self.interp()
            s2 = st.copy()
            self.seed(s2, f, args)
            out.extend(I.run(f, s2, cls=self.cls))
        return out

    def call(self, states, name, args=(), n=None, pick=None):
        """-> [(state, value)]: the value read, for a returned reference"""
        f = self.method(name, len(args) if n is None else n, pick) if isinstance(name, str) else name
        return self.value(f, self._run(states, f, args))

    def sub(self, cls, name, n=None):
        """method of the class of a part of the object"""
        for c in [cls] + list(self.prog.bases(cls)):
            fs = [f for f in self.prog.methods_of[c] if f["q"].rsplit("::", 1)[-1] == name and f.get("body") is not None and (n is None or len(f["p"]) == n)]
            if fs:
                return fs[0]
        raise AnalysisError("%s: %s::%s not found" % (self.tag, cls, name))

    def call_on(self, st, loc, f, args=()):
        """calls a method of the part at loc -> [(state, value)]"""
        I = self.interp()
        s2 = st.copy()
        self.seed(s2, f, args)
        return self.value(f, I.run(f, s2, this=loc, cls=f.get("cls")))

    def value(self, f, outs):
        out = []
        for s, v in outs:
            x = v.v
            if v.loc is not None:
                I = self.interp()
                x = I.dom.read(I, s, v, f, None)
            if x is None and v.c is not None and not isinstance(v.c, bool):
                x = S(v.c)
            out.append((s, x))
        return out

    def obj(self, states, name, args=(), n=None, pick=None):
        """-> [(state, location of the object given)]"""
        f = self.method(name, len(args) if n is None else n, pick) if isinstance(name, str) else name
        return [(s, v.loc) for s, v in self._run(states, f, args)]

    def states(self, states, name, args=(), n=None, pick=None):
        out, seen = [], set()
        for s, v in self.call(states, name, args, n, pick):
            for d in (s.c, s.d):
                for k in [k for k in d if k and isinstance(k[0], tuple) and k[0][0] in ("arg", "tmp", "v")]:
                    del d[k]
            if s.key() not in seen:
                seen.add(s.key())
                out.append(s)
        if not out and self.fails:
            raise Stops(self.cls, name if isinstance(name, str) else name["q"], self.fails)
        if not out:
            raise AnalysisError("%s: no path through %s::%s" % (self.tag, self.cls, name))
        return out
