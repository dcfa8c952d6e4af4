"""Matrix value numbering: the value of a vector or matrix is numbered by the (non-commutative) polynomial of the input matrices it is
computed from, in a normal form; two expressions that are equal by associativity, distributivity, transposition, symmetry of
covariances or the definition of an inverse get the same number.  Unknown values are None; joins keep equal numbers only."""
from fractions import Fraction
from .interp import Domain, Val
from .prog import strip_t

ONE_T = (frozenset(), ())
SYM = set()


class P:
    """polynomial: {(scalar factors, word): coefficient}; a letter of a word is (name, transposed)"""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t if isinstance(t, frozenset) else frozenset((k, c) for k, c in t.items() if c)
        self._h = hash(self.t)

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def letter(n):
    return P({(frozenset(), ((n, False),)): Fraction(1)})


def scal(n):
    return P({(frozenset([(n, 1)]), ()): Fraction(1)})


def num(c):
    return P({ONE_T: Fraction(c).limit_denominator(10**9)})


ZERO = P({})
ONE = num(1)


def sname(n):
    if isinstance(n, str):
        return n
    if isinstance(n, tuple):
        if n and n[0] == "inv":
            return "inv(%s)" % show(n[1])
        return "%s(%s)" % (n[0], ", ".join(show(x) if isinstance(x, P) else str(x) for x in n[1:]))
    return str(n)


def show(p):
    if not isinstance(p, P):
        return "?" if p is None else str(p)
    if not p.t:
        return "0"
    out = []
    for (s, w), c in sorted(p.t, key=lambda x: (len(x[0][1]), str(x[0]))):
        f = [sname(n) if e == 1 else "%s^%s" % (sname(n), e) for n, e in sorted(s, key=str)]
        f += [sname(n) + ("'" if t else "") for n, t in w]
        out.append(("" if c == 1 and f else "-" if c == -1 and f else str(c) + ("*" if f else "")) + "*".join(f))
    return " + ".join(out)


def add(a, b, k=1):
    m = dict(a.t)
    for t, c in b.t:
        m[t] = m.get(t, 0) + k * c
    return P(m)


def scale(a, c):
    return P({t: v * c for t, v in a.t})


def smul(a, b):
    m = dict(a)
    for n, e in b:
        m[n] = m.get(n, 0) + e
    return frozenset((n, e) for n, e in m.items() if e)


def mul(a, b):
    out = {}
    for (s1, w1), c1 in a.t:
        for (s2, w2), c2 in b.t:
            k = (smul(s1, s2), w1 + w2)
            out[k] = out.get(k, 0) + c1 * c2
    return norm(P(out))


def norm(p, depth=0):
    """normal form: L^-T L^-1 -> inverse; inverse(S)*R -> 1 - inverse(S)*(S-R) for the last single matrix of the sum S"""
    out = {}
    again = False
    for (s, w), c in p.t:
        hit = False
        for i in range(len(w) - 1):
            (n1, t1), (n2, t2) = w[i], w[i + 1]
            if isinstance(n1, tuple) and isinstance(n2, tuple) and n1[0] == "Linv" and n2[0] == "Linv" and n1[1] == n2[1] and t1 and not t2:
                rep = inverse(n1[1])
                q = mul(mul(P({(s, w[:i]): c}), rep), P({(frozenset(), w[i + 2:]): Fraction(1)}))
                for k, v in q.t:
                    out[k] = out.get(k, 0) + v
                hit = True
                break
            for inv, mat, left in ((w[i], w[i + 1], True), (w[i + 1], w[i], False)):
                if isinstance(inv[0], tuple) and inv[0][0] == "inv" and pivot(inv[0][1]) == (mat,):
                    S = inv[0][1]
                    rest = P({k: v for k, v in S.t if k != (frozenset(), (mat,))})
                    piv = dict(S.t)[(frozenset(), (mat,))]
                    il = P({(frozenset(), (inv,)): Fraction(1)})
                    # inv*mat = (1 - inv*rest)/piv
                    mid = scale(add(ONE, mul(il, rest) if left else mul(rest, il), -1), 1 / piv)
                    q = mul(mul(P({(s, w[:i]): c}), mid), P({(frozenset(), w[i + 2:]): Fraction(1)}))
                    for k, v in q.t:
                        out[k] = out.get(k, 0) + v
                    hit = True
                    break
            if hit:
                break
        if not hit:
            out[(s, w)] = out.get((s, w), 0) + c
        again = again or hit
    return P(out)


def pivot(S):
    """the single-matrix term of a sum used to eliminate it next to the inverse of the sum"""
    one = sorted([w for (s, w), c in S.t if len(w) == 1 and not s], key=str)
    return one[-1] if one else None


def transpose(p):
    out = {}
    for (s, w), c in p.t:
        w2 = tuple(tr(l) for l in reversed(w))
        out[(s, w2)] = out.get((s, w2), 0) + c
    return P(out)


def symmetric_name(n):
    if n in SYM:
        return True
    if isinstance(n, tuple) and n[0] == "inv":
        return transpose(n[1]) == n[1]
    return False


def tr(l):
    n, t = l
    return (n, False) if symmetric_name(n) else (n, not t)


def inverse(p):
    t = list(p.t)
    if len(t) == 1:
        (s, w), c = t[0]
        if not w:
            return P({(frozenset((n, -e) for n, e in s), ()): 1 / c})
        r = P({(frozenset((n, -e) for n, e in s), ()): 1 / c})
        for n, tt in w:
            l = inv_letter(n, tt)
            r = mul(l, r)
        return r
    return P({(frozenset(), ((("inv", p), False),)): Fraction(1)})


def inv_letter(n, tt):
    if isinstance(n, tuple) and n[0] == "inv":
        return n[1]
    p = P({(frozenset(), ((n, False),)): Fraction(1)})
    return P({(frozenset(), ((("inv", p), tt and not symmetric_name(n)),)): Fraction(1)})


SAME = {"noalias", "eval", "derived", "matrix", "array", "cast", "ctor", "u+", "triangularView_", "full", "operator()", "transpose_", "reconstructedMatrix"}
WHOLE = ("noalias", "derived", "matrix", "array", "eval")
DECOMP = ("llt", "ldlt", "partialPivLu", "fullPivLu", "lu", "colPivHouseholderQr", "householderQr", "fullPivHouseholderQr")


class AlgDomain(Domain):
    def __init__(self, fns=(), arrays=()):
        self.fns = fns          # {short name of a function kept opaque: letter name}
        self.errors = []

    def const(self, I, node, c):
        if isinstance(c, bool):
            return None
        try:
            return num(c)
        except (TypeError, ValueError, OverflowError):
            return None

    def read(self, I, st, val, node, fr):
        v = st.d.get(val.loc)
        if val.sub and not all(x.name in WHOLE for x in val.sub):
            if len(val.sub) == 1:
                k = self.viewkey(I, st, val)
                if k is not None:
                    w = st.d.get(val.loc + (k,))
                    if w is not None:
                        return w
                    if isinstance(v, P):
                        if not v.t:
                            return ZERO
                        return scal(("el", v) + k[1:]) if k[0] == "el" else letter(("part", v) + k)
            return None
        if v is None and val.loc in st.c and not isinstance(st.c[val.loc], bool):
            return self.const(I, node, st.c[val.loc])
        parts = [(k[-1], x) for k, x in st.d.items() if len(k) == len(val.loc) + 1 and k[:-1] == val.loc and isinstance(k[-1], tuple) and k[-1] and k[-1][0] in ("el", "colv")]
        if parts:
            return letter(("with", v if isinstance(v, P) else None) + tuple(sorted(parts, key=str)))
        return v

    def viewkey(self, I, st, val):
        x = val.sub[0]
        n = x.d[0]
        a = [self.ival(I, v) for v in x.args]
        if any(y is None for y in a):
            return None
        if n in ("[]", "()", "coeff", "coeffRef"):
            return ("el",) + tuple(a)
        if n == "col" and len(a) == 1:
            return ("colv", a[0])
        return None

    def ival(self, I, v):
        if isinstance(v.v, P):
            return v.v
        if v.c is not None and not isinstance(v.c, bool):
            return num(v.c)
        return None

    def write(self, I, st, lhs, val, node, fr, op="="):
        if lhs.loc is None:
            return
        v = val.v if val is not None else None
        if v is None and val is not None and val.c is not None and not isinstance(val.c, bool) and op in ("=", "init"):
            v = self.const(I, node, val.c)
        if op == "copy":
            return
        if lhs.sub and not all(x.name in WHOLE for x in lhs.sub):
            names = [x.name for x in lhs.sub]
            if "diagonal" in names and all(n in WHOLE + ("diagonal",) for n in names) and op in ("+=", "-="):
                return      # done by opassign
            if len(lhs.sub) == 1 and op == "=":
                k = self.viewkey(I, st, lhs)
                if k is not None and v is not None:
                    st.d[lhs.loc + (k,)] = v
                    return
            self.clear(st, lhs.loc)
            st.d.pop(lhs.loc, None)
            return
        self.clear(st, lhs.loc)
        if op in ("resize", "conservativeResize", "resizeLike"):
            if op != "resize":
                return
            v = None
        if v is None:
            st.d.pop(lhs.loc, None)
        else:
            st.d[lhs.loc] = v

    def clear(self, st, loc):
        for k in [k for k in st.d if len(k) == len(loc) + 1 and k[:-1] == loc and isinstance(k[-1], tuple) and k[-1] and k[-1][0] in ("el", "colv")]:
            del st.d[k]

    def op(self, I, st, name, node, vals, fr):
        n = name.lstrip(".")
        vs = []
        for v in vals:
            x = v.v
            if x is None and v.c is not None and not isinstance(v.c, bool):
                x = self.const(I, node, v.c)
            vs.append(x)
        if n in ("setZero", "Zero"):
            return ZERO
        if n in ("setIdentity", "Identity"):
            return ONE
        if n in ("++", "--") and vs and isinstance(vs[0], P):
            return add(vs[0], ONE, 1 if n == "++" else -1)
        if not vs or vs[0] is None:
            return None
        a = vs[0]
        if isinstance(a, tuple) and a[0] == "dec":
            if n == "matrixL":
                return ("L", a[1], False)
            if n in ("matrixU",) and a[2] == "llt":
                return ("L", a[1], True)
            if n == "solve" and len(vs) == 2 and isinstance(vs[1], P):
                return mul(inverse(a[1]), vs[1])
            if n == "inverse":
                return inverse(a[1])
            if n in ("ctor", "cast"):
                return a
            return None
        if isinstance(a, tuple) and a[0] == "L":
            if n in ("transpose", "adjoint"):
                return ("L", a[1], not a[2])
            if n == "solve" and len(vs) == 2 and isinstance(vs[1], P):
                return mul(letter_l(a), vs[1])
            return None
        if any(not isinstance(v, P) for v in vs):
            return None
        if len(vs) == 1:
            if n in SAME:
                return a
            if n == "u-" or n == "-":
                return scale(a, -1)
            if n in ("transpose", "adjoint"):
                return transpose(a)
            if n == "inverse":
                return inverse(a)
            if n in DECOMP:
                return ("dec", a, n)
            return None
        b = vs[1]
        if n == "+":
            return add(a, b)
        if n == "-":
            return add(a, b, -1)
        if n == "*":
            return mul(a, b)
        if n == "/":
            return mul(a, inverse(b)) if b.t else None
        if n == "ctor":
            return None
        return None

    def call(self, I, st, node, fn, obj, args, fr):
        if node.get("k") == "ctor" or args is None:
            if node.get("k") == "ctor" and any(d in (node.get("cls") or "") for d in ("::LLT", "::LDLT", "PartialPivLU", "FullPivLU")):
                pass
            return None
        name = strip_t(node.get("f", ""))
        short = name.rsplit("::", 1)[-1]
        if short in self.fns and (name.startswith("stateObservation")):
            ps = []
            out = None
            pm = node.get("pm", [])
            for i, a in enumerate(args):
                if i < len(pm) and pm[i] == "r":
                    out = a
                    continue
                v = I.rv(st, a, node["a"][i], fr)
                x = v.v if isinstance(v.v, P) else self.const(I, node, v.c) if v.c is not None and not isinstance(v.c, bool) else None
                ps.append(x)
            r = None
            if all(x is not None for x in ps):
                r = self.fns[short](*ps) if callable(self.fns[short]) else letter((self.fns[short],) + tuple(ps))
            if out is not None:
                I.write(st, out, Val(v=r, node=node), node, fr, "=")
                return [(st, Val(node=node))]
            return [(st, Val(v=r, node=node))]
        if obj is not None and obj.loc is not None and "IndexedMatrixArrayT" in name and node.get("op") == "[]":
            v = I.rv(st, args[0], node["a"][0], fr)
            i = self.ival(I, v)
            if i is not None:
                return [(st, Val(v=letter(("at", str(obj.loc[-1]), i)), node=node))]
            return [(st, Val(node=node))]
        if obj is not None and "IndexedMatrixArrayT" in name and not node.get("op"):
            return [(st, Val(node=node))]
        return None

    def ext(self, I, st, node, name, obj, args, fr):
        short = name.rsplit("::", 1)[-1]
        if name.startswith("Eigen") and obj is None and short in ("Zero", "Identity"):
            for a, n in zip(args, node["a"]):
                I.rv(st, a, n, fr)
            return Val(v=ZERO if short == "Zero" else ONE, node=node)
        if short == "compute" and obj is not None and obj.loc is not None and args:
            v = I.rv(st, args[0], node["a"][0], fr).v
            kind = "llt" if "LLT" in name else "lu"
            if isinstance(v, P):
                st.d[obj.loc] = ("dec", v, kind)
            else:
                st.d.pop(obj.loc, None)
            return Val(loc=obj.loc, node=node)
        if short == "solveInPlace" and obj is not None and args and args[0].loc is not None:
            o = I.rv(st, obj, node["o"], fr).v
            x = I.rv(st, args[0], node["a"][0], fr).v
            r = None
            if isinstance(o, tuple) and isinstance(x, P):
                if o[0] == "L":
                    r = mul(letter_l(o), x)
                elif o[0] == "dec":
                    r = mul(inverse(o[1]), x)
            I.write(st, args[0], Val(v=r, node=node), node, fr, "=")
            return Val(node=node)
        if obj is not None and obj.loc is not None and node.get("op") in ("+=", "-=") and obj.sub:
            names = [x.name for x in obj.sub]
            if "diagonal" in names and all(n in WHOLE + ("diagonal",) for n in names) and args:
                v = I.rv(st, args[0], node["a"][0], fr)
                c = v.v if isinstance(v.v, P) else self.const(I, node, v.c) if v.c is not None else None
                b = st.d.get(obj.loc)
                if isinstance(b, P) and isinstance(c, P) and all(not w for (s, w), k in c.t):
                    st.d[obj.loc] = add(b, c, 1 if node["op"] == "+=" else -1)
                else:
                    st.d.pop(obj.loc, None)
                return Val(loc=obj.loc, sub=obj.sub, node=node)
        return None

    def assume(self, I, st, node, val, pol, fr):
        """a matrix found equal to zero is zero from there on"""
        op = node.get("op") if isinstance(node, dict) else None
        if op in ("==", "!=") and (op == "==") == pol:
            es = ([node["o"]] if "o" in node else []) + list(node.get("a") or []) if node.get("k") == "call" else [node.get("a"), node.get("b")]
            if len(es) == 2:
                try:
                    vs = [self.peek(I, e, st, fr) for e in es]
                except Exception:
                    return st
                for x, y in ((0, 1), (1, 0)):
                    if vs[x] is not None and vs[y] is not None and vs[x].loc is not None and not vs[x].sub and vs[y].loc is None and vs[y].v == ZERO:
                        st.d[vs[x].loc] = ZERO
        return st

    def peek(self, I, e, st, fr):
        r = I.eval(e, st.copy(), fr)
        return r[0][1] if len(r) == 1 else None


def letter_l(o):
    # L^-1 or L^-T of the Cholesky factor of o[1]
    return P({(frozenset(), ((("Linv", o[1]), o[2]),)): Fraction(1)})
