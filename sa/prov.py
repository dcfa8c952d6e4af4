"""Provenance values: which input quantities a computed quantity is made of, with which multiplicity and which frame.

A value is Q(F, D, R):
  F  frame type: ("V", a) a vector in frame a, ("R", a, b) a rotation from b to a, None no frame known
  D  provenance: finite map from products of input labels (label, exponent)* to a rational multiplicity.  A rotation has the
     sum of the provenances of the rotations it is composed of (inverse: negated); the order of the factors is not recorded, it is
     in the frames
  R  scalar factor of a rotation matrix (empty: 1)
Order of factors and directions are forgotten (except for the orientation of cross products): this is a dataflow
domain, joined and compared by equality; unknown is None.
"""
from fractions import Fraction
from .interp import Domain, Val
from .prog import strip_t
from .frames import compose, invert, ERR, ID, JUNK

NOR = frozenset()
WHOLE = ("noalias", "coeffs", "derived", "matrix", "array", "vec")


def overlap(a, b):
    if isinstance(a[0], tuple) or isinstance(b[0], tuple):
        return True
    return a[0] < b[0] + b[2] and b[0] < a[0] + a[2] and a[1] < b[1] + b[3] and b[1] < a[1] + a[3]


def inside(a, b):
    """a within b"""
    if isinstance(a[0], tuple) or isinstance(b[0], tuple):
        return a == b
    return a[0] >= b[0] and a[1] >= b[1] and a[0] + a[2] <= b[0] + b[2] and a[1] + a[3] <= b[1] + b[3]


def area(parts):
    return sum(q[2] * q[3] for q, x in parts)



class Q:
    __slots__ = ("F", "D", "R", "_h")

    def __init__(self, F, D, R=NOR):
        self.F = F
        self.D = D if isinstance(D, frozenset) else frozenset((k, v) for k, v in D.items() if v != 0)
        self.R = R
        self._h = hash((self.F, self.D, self.R))

    def __eq__(self, o):
        return isinstance(o, Q) and self.F == o.F and self.D == o.D and self.R == o.R

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "Q(%s,%s,%s)" % (self.F, show(self.D), sorted(self.R))


def mono(*labels):
    m = {}
    for l in labels:
        if isinstance(l, tuple) and len(l) == 2 and isinstance(l[1], (int, Fraction)):
            m[l[0]] = m.get(l[0], 0) + l[1]
        else:
            m[l] = m.get(l, 0) + 1
    return frozenset((k, e) for k, e in m.items() if e)


def lab(l, F=None, R=NOR):
    return Q(F, {mono(l): Fraction(1)}, R)


def num(c):
    return Q(None, {frozenset(): Fraction(c).limit_denominator(10**9)})


ZERO = Q(None, {})


def show(D):
    if not D:
        return "0"
    out = []
    for m, c in sorted(D, key=lambda x: sorted(map(str, x[0]))):
        f = [str(l) if e == 1 else "%s^%s" % (l, e) for l, e in sorted(m, key=str)]
        s = "" if c == 1 and f else "-" if c == -1 and f else str(c) + ("*" if f else "")
        out.append(s + "*".join(f))
    return " + ".join(out)


def d_add(a, b, k=1):
    m = dict(a)
    for key, c in b:
        m[key] = m.get(key, 0) + k * c
    return frozenset((key, c) for key, c in m.items() if c)


def m_mul(a, b):
    m = dict(a)
    for l, e in b:
        m[l] = m.get(l, 0) + e
    return frozenset((l, e) for l, e in m.items() if e)


def d_mul(a, b, sign=None):
    m = {}
    for ka, ca in a:
        for kb, cb in b:
            s = 1 if sign is None else sign(ka, kb)
            if s == 0:
                continue
            if sign is not None and rots(ka) and rots(ka) == rots(kb):
                k = m_mul(ka, kb - rots(kb))        # a turned cross product is the product of the turned vectors
            else:
                k = m_mul(ka, kb)
            m[k] = m.get(k, 0) + s * ca * cb
    return frozenset((k, c) for k, c in m.items() if c)


def d_scale(a, c):
    return frozenset((k, v * c) for k, v in a)


def d_inv(a):
    a = list(a)
    if len(a) == 1:
        k, c = a[0]
        return frozenset([(frozenset((l, -e) for l, e in k), 1 / c)])
    return frozenset([(mono(("1/", frozenset(a))), Fraction(1))])


def turn(rot, vec):
    """provenance of a vector turned by a rotation: the rotation is a factor, its inverse a negative power of it"""
    f = []
    for k, c in rot:
        if len(k) == 1 and c.denominator == 1 and next(iter(k))[1] == 1:
            f.append((("R", next(iter(k))[0]), int(c)))
        else:
            f = [(("R", rot), 1)]
            break
    return d_mul(vec, frozenset([(mono(*f), Fraction(1))]))


ONE = frozenset([(frozenset(), Fraction(1))])


def r_mul(a, b):
    """product of the scalar factors of two rotations (none: 1)"""
    if not a or not b:
        return a or b
    m = d_mul(a, b)
    return NOR if m == ONE else m


def is_scalar(I, node, i):
    """whether operand i of the product is a number"""
    ops = ([node["o"]] if "o" in node else []) + list(node.get("a") or []) if node.get("k") == "call" else [node.get("a"), node.get("b")]
    return i < len(ops) and isinstance(ops[i], dict) and scalar_type(I, ops[i])


def rots(k):
    return frozenset((l, e) for l, e in k if isinstance(l, tuple) and l[0] == "R")


def scalar(q):
    """a value made of numbers and scalar labels only"""
    return q.F is None and not q.R


CONV = {"rotationVectorToQuaternion", "rotationVectorToRotationMatrix", "rotationVectorToAngleAxis", "quaternionToRotationVector",
        "rotationMatrixToRotationVector", "rotationMatrixToQuaternion"}
SAMEV = {"normalized", "derived", "eval", "noalias", "matrix", "cast", "ctor", "toRotationMatrix", "coeffs", "vec", "array",
         "operator()", "u+", "eulerAngles", "asDiagonal"}
INV = {"transpose", "inverse", "conjugate", "adjoint"}


class ProvDomain(Domain):
    def __init__(self, rank=None):
        self.errors = []
        self.rank = rank or (lambda l: (0, str(l)))

    # -- canonical orientation of a cross product: smaller rank first
    def xsign(self, ka, kb):
        if len(ka - rots(ka)) == 1 and ka == kb:
            return 0
        ra = min((self.rank(l) for l, e in ka - rots(ka)), default=(9, ""))
        rb = min((self.rank(l) for l, e in kb - rots(kb)), default=(9, ""))
        return -1 if ra > rb else 1

    def const(self, I, node, c):
        if isinstance(c, bool):
            return None
        try:
            return num(c)
        except (TypeError, ValueError, OverflowError):
            return None

    def region(self, I, val):
        """(row, column, rows, columns) of a view with constant bounds, or None"""
        r = None
        for x in val.sub:
            n, a, t = x.d[0], x.d[1], [int(str(y)) if str(y).lstrip("-").isdigit() else None for y in x.d[2]]
            if n in WHOLE:
                continue
            o = x.node.get("o") if x.node is not None else None
            ty = I.prog.type(o) if o is not None else {}
            rows, cols = ty.get("rows"), ty.get("cols")
            if r is not None:
                rows, cols = r[2], r[3]
            if r is None and self.dims is not None and (not rows or rows < 0 or not cols or cols < 0):
                rows, cols = self.dims(I, val, rows, cols)
            isrow = rows == 1 and cols not in (1, None)
            if any(y is None for y in a):
                return None
            q = None
            t = [y for y in t if y is not None]
            if n == "segment":
                ln = t[0] if t else a[1] if len(a) > 1 else None
                q = (a[0], ln)
            elif n in ("head", "tail"):
                ln = t[0] if t else a[0] if a else None
                if ln is None:
                    return None
                sz = cols if isrow else rows
                if n == "tail" and (sz is None or sz < 0):
                    q = (("end", ln), ln)      # counted from the end of a vector whose length is not known
                else:
                    q = (0 if n == "head" else sz - ln, ln)
            elif n in ("[]", "()", "x", "y", "z", "w", "coeffRef", "coeff"):
                if n in ("x", "y", "z", "w"):
                    q = ("xyzw".index(n), 1)
                elif len(a) == 1:
                    q = (a[0], 1)
                elif len(a) == 2:
                    q = (a[0], a[1], 1, 1)
            elif n == "block":
                d = t[:2] if len(t) >= 2 else a[2:4]
                if len(d) != 2:
                    return None
                q = (a[0], a[1], d[0], d[1])
            elif n in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
                d = t[:2] if len(t) >= 2 else a[:2]
                if len(d) != 2:
                    return None
                if ("bottom" in n and not rows) or ("Right" in n and not cols):
                    return None
                q = (rows - d[0] if "bottom" in n else 0, cols - d[1] if "Right" in n else 0, d[0], d[1])
            elif n == "col" and a:
                q = (0, a[0], rows, 1)
            elif n == "row" and a:
                q = (a[0], 0, 1, cols)
            else:
                return None
            if any(y is None for y in q):
                return None
            if len(q) == 2:
                q = (0, q[0], 1, q[1]) if isrow else (q[0], 0, q[1], 1)
            if r is None:
                r = q
            elif isinstance(r[0], tuple) or isinstance(q[0], tuple):
                return None
            else:
                r = (r[0] + q[0], r[1] + q[1], q[2], q[3])
        return r

    dims = None

    def parts(self, st, loc):
        n = len(loc)
        return [(k[-1][1:], x) for k, x in st.d.items() if len(k) == n + 1 and isinstance(k[-1], tuple) and k[-1][0] == "seg" and k[:-1] == loc]

    def read(self, I, st, val, node, fr):
        v = st.d.get(val.loc)
        if val.sub and not all(x.name in WHOLE for x in val.sub):
            s = self.region(I, val)
            if s is None:
                return None
            w = st.d.get(val.loc + (("seg",) + s,))
            if w is not None:
                return w if w != "unknown" else None
            p = self.parts(st, val.loc)
            inner = [(q, x) for q, x in p if overlap(q, s)]
            if inner:
                if all(inside(q, s) for q, x in inner) and isinstance(v, Q) and not v.D or (
                        inner and all(inside(q, s) for q, x in inner) and area(inner) == s[2] * s[3]):
                    return ("segs", frozenset([((q[0] - s[0], q[1] - s[1], q[2], q[3]), x) for q, x in inner]), v if isinstance(v, Q) else None)
                return None
            if isinstance(v, Q):
                if v.F == ("vector",):
                    return lab(("seg",) + s)
                if not v.D:
                    return v
            return None
        p = self.parts(st, val.loc)
        if p:
            return ("segs", frozenset(p), v if isinstance(v, Q) else None)
        if v is None and val.loc in st.c and not isinstance(st.c[val.loc], bool):
            return self.const(I, node, st.c[val.loc])
        return v

    def write(self, I, st, lhs, val, node, fr, op="="):
        if lhs.loc is None:
            return
        v = val.v if val is not None else None
        if isinstance(v, tuple) and v and v[0] == ERR:
            self.err(node, fr, v)
            v = None
        if v is None and val is not None and val.c is not None and not isinstance(val.c, bool) and (op in ("=", "init")):
            v = self.const(I, node, val.c)
        if op == "copy" or op in ("method:normalize", "method:stableNormalize"):
            return
        if lhs.sub and not all(x.name in WHOLE for x in lhs.sub):
            s = self.region(I, lhs)
            base = st.d.get(lhs.loc)
            if isinstance(base, Q) and base.D:
                st.d.pop(lhs.loc, None)
            for q, x in self.parts(st, lhs.loc):
                if s is None or overlap(q, s):
                    k = lhs.loc + (("seg",) + q,)
                    if s is not None and inside(q, s):
                        del st.d[k]
                    else:
                        st.d[k] = "unknown"
            if s is None:
                st.d.pop(lhs.loc, None)
            elif isinstance(v, tuple) and v and v[0] == "segs":
                for q, x in v[1]:
                    if isinstance(s[0], tuple) or isinstance(q[0], tuple):
                        st.d[lhs.loc + (("seg",) + s,)] = "unknown"
                        return
                    st.d[lhs.loc + (("seg", s[0] + q[0], s[1] + q[1], q[2], q[3]),)] = x
            else:
                st.d[lhs.loc + (("seg",) + s,)] = v if v is not None else "unknown"
            return
        for q, x in self.parts(st, lhs.loc):
            del st.d[lhs.loc + (("seg",) + q,)]
        if isinstance(v, tuple) and v and v[0] == "segs":
            if v[2] is not None:
                st.d[lhs.loc] = v[2]
            else:
                st.d.pop(lhs.loc, None)
            for sg, x in v[1]:
                st.d[lhs.loc + (("seg",) + sg,)] = x
        elif v is None:
            st.d.pop(lhs.loc, None)
        else:
            st.d[lhs.loc] = v

    def err(self, node, fr, v):
        self.errors.append((node, fr, v[1]))

    def assert_fails(self, I, node, fr):
        f, n = fr, node
        while f.parent is not None:
            n, f = f.callnode, f.parent
        self.errors.append((n, fr, "an assertion fails (%s): a value that is not set is used" % fr.fn["q"]))

    def op(self, I, st, name, node, vals, fr):
        n = name.lstrip(".")
        vs = []
        for v in vals:
            x = v.v
            if x is None and v.c is not None and not isinstance(v.c, bool):
                x = self.const(I, node, v.c)
            vs.append(x)
        if any(v == JUNK for v in vs):
            return (ERR, "uses a value that is not in force")
        for v in vs:
            if isinstance(v, tuple) and v and v[0] == ERR:
                return v
        if n == "comma":
            return self.comma(I, node, vals, vs)
        if n in ("setZero", "Zero", "setIdentity", "Identity"):
            return ZERO
        if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == "segs" and n in SAMEV:
            return vs[0]
        if not vs or any(not isinstance(v, Q) for v in vs):
            return None
        a = vs[0]
        if n in SAMEV and len(vs) == 1:
            return a
        if n in ("+", "-") and len(vs) == 2:
            b = vs[1]
            if a.F and b.F and a.F != b.F and a.D and b.D:
                return (ERR, "adds quantities of different frames (%s and %s)" % (a.F, b.F))
            return Q(a.F or b.F, d_add(a.D, b.D, 1 if n == "+" else -1), a.R | b.R)
        if n in ("u-", "-") and len(vs) == 1:
            if a.F and a.F[0] == "R":
                if typ(I, node).get("cols") == 1:
                    return Q(invert(a.F), d_scale(a.D, -1))     # the opposite rotation vector is the inverse rotation
                return Q(a.F, a.D, d_scale(a.R or ONE, -1))     # the opposite of a rotation matrix is not a rotation
            return Q(a.F, d_scale(a.D, -1))
        if n in INV and len(vs) == 1:
            if a.F and a.F[0] == "R" or a.F is None and not scalar_type(I, node):
                return Q(invert(a.F) if a.F else None, d_scale(a.D, -1), a.R)
            return None
        if n == "angle" and len(vs) == 1:
            return Q(("angle",), a.D, a.R)
        if n == "axis" and len(vs) == 1:
            return Q(("axis", a.D), {frozenset(): Fraction(1)}, a.R)
        if n == "cross" and len(vs) == 2:
            return self.cross(a, vs[1])
        if n == "*" and len(vs) == 2:
            return self.mul(I, node, a, vs[1])
        if n == "/" and len(vs) == 2:
            b = vs[1]
            if not b.D:
                return None
            if a.F and a.F[0] == "R":
                return None
            return Q(a.F, d_mul(a.D, d_inv(b.D)), a.R | b.R)
        return None

    def comma(self, I, node, vals, vs):
        """places of the items of a comma initialiser, filled row by row"""
        n = node
        while n["k"] == "call" and n.get("op") == ",":
            n = n["o"]
        t = typ(I, n.get("o"))
        rows, cols = t.get("rows"), t.get("cols")
        if not rows or not cols or rows < 0 or cols < 0:
            if cols != 1:
                return None
            rows = 10**6
        r = c = h = 0
        out = []
        for v, x in zip(vals, vs):
            ty = typ(I, v.node)
            if ty.get("k") in ("float", "int", "bool"):
                m, k = 1, 1
            else:
                m, k = ty.get("rows"), ty.get("cols")
                if (not m or m < 0) and k == 1 and dimsof(v.node):
                    m = dimsof(v.node)
                if not m or not k or m < 0 or k < 0:
                    return None
            if c == cols:
                r, c = r + h, 0
            h = m
            rg = (r, c, m, k)
            if isinstance(x, tuple) and x and x[0] == "segs":
                out.extend(((r + q[0], c + q[1], q[2], q[3]), y) for q, y in x[1] if not isinstance(q[0], tuple))
            else:
                out.append((rg, x if x is not None else "unknown"))
            c += k
        return ("segs", frozenset(out), None)

    def cross(self, a, b):
        if a.F and b.F and a.F != b.F and a.D and b.D:
            return (ERR, "takes the cross product of vectors of different frames (%s and %s)" % (a.F, b.F))
        return Q(a.F or b.F, d_mul(a.D, b.D, self.xsign), a.R | b.R)

    def mul(self, I, node, a, b):
        if a.F and a.F[0] == "X":
            F = a.F[1]
            if b.F and b.F[0] == "V":
                return self.cross(Q(F, a.D, a.R), b)
            return None
        if b.F and b.F[0] == "X":
            if scalar(a):
                return Q(b.F, d_mul(a.D, b.D), a.R | b.R)
            return None
        for x, y in ((a, b), (b, a)):
            if x.F and x.F[0] == "angle":
                if y.F and y.F[0] == "axis":
                    return Q(None, d_mul(x.D, y.D), x.R | y.R)
                return Q(x.F, d_mul(x.D, y.D), x.R | y.R) if scalar(y) else None
            if x.F and x.F[0] == "axis":
                return None
        ra = a.F is not None and a.F[0] == "R"
        rb = b.F is not None and b.F[0] == "R"
        if ra and rb:
            F = compose(a.F, b.F)
            if F[0] == ERR:
                return F
            return Q(F, d_add(a.D, b.D), r_mul(a.R, b.R))
        if ra:
            if b.F is not None and b.F[0] == "V":
                F = compose(a.F, b.F)
                if F[0] == ERR:
                    return F
                return Q(F, d_mul(a.R or ONE, turn(a.D, b.D)))
            if scalar(b) and is_scalar(I, node, 1) and not is3(I, node):
                return Q(a.F, a.D, r_mul(a.R, b.D))
            if rotlike(I, node):
                return Q(None, d_add(a.D, b.D), a.R | b.R)
            if b.F is None and is3(I, node):
                return Q(("V", a.F[1]), d_mul(a.R or ONE, turn(a.D, b.D)))
            return None
        if rb:
            if scalar(a) and is_scalar(I, node, 0) and not is3(I, node):
                return Q(b.F, b.D, r_mul(a.D, b.R))
            if rotlike(I, node):
                return Q(None, d_add(a.D, b.D), a.R | b.R)
            return None
        if a.F is None and b.F is None and rotlike(I, node):
            return Q(None, d_add(a.D, b.D), a.R | b.R)
        return Q(a.F or b.F, d_mul(a.D, b.D), a.R | b.R)

    def call(self, I, st, node, fn, obj, args, fr):
        if node.get("k") == "ctor" or args is None:
            return None
        name = strip_t(node.get("f", "")).rsplit("::", 1)[-1]
        if name in CONV and args:
            v = I.rv(st, args[0], node["a"][0], fr).v
            if v == JUNK:
                v = (ERR, "uses a value that is not in force")
            elif isinstance(v, Q):
                F = None
                if v.F and v.F[0] == "R" and "Vector" not in name.split("To")[-1]:
                    F = v.F
                elif v.F and v.F[0] == "V" and "Vector" not in name.split("To")[-1]:
                    # the displacement of a frame during the step, expressed in the frame the vector is in
                    F = ("R", v.F[1] + "'", v.F[1])
                v = Q(F, v.D, v.R)
            return [(st, Val(v=v, node=node))]
        if name == "skewSymmetric" and args:
            v = I.rv(st, args[0], node["a"][0], fr).v
            r = Q(("X", v.F), v.D, v.R) if isinstance(v, Q) else None
            if len(args) > 1:
                I.write(st, args[1], Val(v=r, node=node), node, fr, "=")
            return [(st, Val(v=r, node=node))]
        if name in ("zeroRotationQuaternion",) and not args:
            return [(st, Val(v=ZERO, node=node))]
        return None

    def ext(self, I, st, node, name, obj, args, fr):
        short = name.rsplit("::", 1)[-1]
        if short in ("Zero", "Identity") and name.startswith("Eigen") and obj is None:
            return Val(v=ZERO, node=node)
        return None


def dimsof(node):
    """rows of a dynamic expression whose length is written in the call: head(3), segment(0, 3)"""
    while node is not None and node.get("k") == "cast":
        node = node.get("e")
    if node is None or node.get("k") != "call":
        return None
    n = strip_t(node.get("f", "")).rsplit("::", 1)[-1]
    a = node.get("a") or []
    if n in ("head", "tail") and len(a) == 1:
        return a[0].get("v", a[0].get("cv"))
    if n == "segment" and len(a) == 2:
        return a[1].get("v", a[1].get("cv"))
    return None


def typ(I, node):
    return I.prog.type(node) if node is not None else {}


def scalar_type(I, node):
    return typ(I, node).get("k") in ("float", "int", "bool")


def is3(I, node):
    t = typ(I, node)
    return t.get("rows") == 3 and t.get("cols") == 1


def rotlike(I, node):
    t = typ(I, node)
    c = t.get("cls") or ""
    return "Quaternion" in c or "AngleAxis" in c or (t.get("rows") == 3 and t.get("cols") == 3)


def places(v, want):
    """compares a value with the places it should fill -> (matched {region: value}, undecided regions, message or None)"""
    got = {q: x for q, x in v[1]}
    matched, und = {}, []
    msg = None
    for rg in want:
        if rg in got:
            matched[rg] = None if got[rg] == "unknown" else got[rg]
        elif any(overlap(q, rg) for q in got):
            bad = [q for q in got if overlap(q, rg) and not inside(q, rg) and not inside(rg, q)]
            if bad and not isinstance(bad[0][0], tuple):
                msg = "the place %s is filled across its bounds by %s" % (rg, bad[0])
            und.append(rg)
        elif isinstance(v[2], Q) and not v[2].D:
            msg = "the place %s is left at zero" % (rg,)
        else:
            msg = "the place %s is not filled" % (rg,)
    for q, x in got.items():
        if not any(overlap(q, rg) for rg in want) and not (isinstance(x, Q) and not x.D) and x != "unknown":
            msg = "the place %s is filled, which belongs to nothing" % (q,)
    return matched, und, msg
