"""Cell-wise value numbering with algebraic fingerprints (random interpretation).

Every cell of a scalar, vector or matrix has a value number: the fingerprint, in a prime field, of the expression it is computed by, with
every input quantity standing for an independent random element.  Expressions that are equal by any identity of commutative algebra, of
matrices or of rotations get the same number, and (up to a chance of about degree/2^61) only those; functions that are not algebraic are
uninterpreted.  Unknown cells are None.  Numbers are only compared with each other: control flow is not decided by them - a condition that is not
a constant is taken both ways, except where a rule declares intervals of the quantities compared.
Rotations: a quaternion is the 4 cells of a unit quaternion of the field, a rotation matrix its matrix, exp/log a rational bijection between
rotation vectors and unit quaternions with exp(-v) = exp(v)^-1.
"""
from fractions import Fraction
import hashlib
import math
from .interp import Domain, Frame, Interp, Outcome, St, Val, ViewD, CONTAINERS, obj_class
from .prog import strip_t

Pm = 2**61 - 1


def H(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=16).digest(), "big") % Pm


def inv(x):
    return pow(x, Pm - 2, Pm)


def small(x):
    """the integer of a value number which stands for a small constant"""
    return None if x is None else x if x < 1000 else x - Pm if Pm - x < 1000 else None


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return c % Pm
    f = Fraction(c).limit_denominator(10**12)
    return f.numerator * inv(f.denominator) % Pm


def qr(x):
    return pow(x, (Pm - 1) // 2, Pm) in (0, 1)


def sqrt(x):
    if x is None:
        return None
    if not qr(x):
        return H("sqrt", x)
    r = pow(x, (Pm + 1) // 4, Pm)
    return Pm - r if Pm - r in POS else r


POS = set()     # numbers of quantities known to be positive


def trig(x):
    """cosine and sine of an angle: those of exp of a rotation vector of that norm"""
    h = 2 * x % Pm
    if h in ANGLES:
        d = inv((1 + h * h) % Pm)
        return (1 - h * h) * d % Pm, 2 * h * d % Pm
    d = inv((1 + x * x) % Pm)
    c, s = (1 - x * x) * d % Pm, 2 * x * d % Pm
    return (c * c - s * s) % Pm, 2 * c * s % Pm


ANGLES = set()  # angles whose half is also of interest


NANS = set()    # numbers standing for the result of a division by zero


def c_add(a, b, k=1):
    if NANS and (a in NANS or b in NANS):
        return a if a in NANS else b
    return None if a is None or b is None else (a + k * b) % Pm


def c_mul(a, b):
    if NANS and (a in NANS or b in NANS):
        return a if a in NANS else b
    if a == 0 or b == 0:
        return 0
    return None if a is None or b is None else a * b % Pm


def c_inv(a):
    return None if not a else inv(a)


class M:
    """r x c cells, row by row; kind m (matrix, vector, scalar), q (unit quaternion x y z w), aa (3x3 cells of the rotation)"""
    __slots__ = ("r", "c", "x", "k", "p", "_h")

    def __init__(self, r, c, x, k="m", p=frozenset()):
        self.r, self.c, self.x, self.k, self.p = r, c, tuple(x), k, p
        assert len(self.x) == r * c, (r, c, len(self.x))
        self._h = hash((r, c, self.x, k))

    def __eq__(self, o):
        return isinstance(o, M) and self.r == o.r and self.c == o.c and self.x == o.x and self.k == o.k

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "M%dx%d%s{%s}%s" % (self.r, self.c, "" if self.k == "m" else self.k, ",".join(sorted(map(str, self.p))), "" if self.known() else "?")

    def known(self):
        return all(y is not None for y in self.x)

    def at(self, i, j=0):
        return self.x[i * self.c + j]

    def sub(self, r, c, h, w):
        return M(h, w, [self.at(i, j) for i in range(r, r + h) for j in range(c, c + w)], p=self.p)

    def seg(self, i, n):
        return M(n, 1, self.x[i:i + n], p=self.p)

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, o, -1)

    def __neg__(self):
        return M(self.r, self.c, [c_mul(Pm - 1, y) for y in self.x], p=self.p)

    def __mul__(self, o):
        if isinstance(o, (int, float, Fraction)):
            o = S(o)
        return mul(self, o)

    def __rmul__(self, o):
        return mul(S(o), self)

    @property
    def T(self):
        return M(self.c, self.r, [self.at(i, j) for j in range(self.c) for i in range(self.r)], p=self.p)


def S(c):
    return M(1, 1, [num(c)])


def add(a, b, k=1):
    if (a.r, a.c) != (b.r, b.c):
        return None
    return M(a.r, a.c, [c_add(x, y, k) for x, y in zip(a.x, b.x)], p=a.p | b.p)


def mul(a, b):
    if a.r == a.c == 1 and not (b.r == 1 and b.c == 1):
        a, b = b, a
    p = a.p | b.p
    if b.r == b.c == 1:
        return M(a.r, a.c, [c_mul(x, b.x[0]) for x in a.x], p=p)
    if a.c != b.r:
        return None
    out = []
    for i in range(a.r):
        for j in range(b.c):
            s = 0
            for k in range(a.c):
                s = c_add(s, c_mul(a.at(i, k), b.at(k, j)))
                if s is None:
                    break
            out.append(s)
    return M(a.r, b.c, out, p=p)


def zero(r, c=1):
    return M(r, c, [0] * (r * c))


def eye(r, c=None):
    c = r if c is None else c
    return M(r, c, [1 if i == j else 0 for i in range(r) for j in range(c)])


def unknown(r, c=1, k="m"):
    return M(r, c, [None] * (r * c), k)


def vec(name, n=3):
    return M(n, 1, [H("in", name, i) for i in range(n)], p=frozenset([name]))


def mat(name, r, c):
    return M(r, c, [H("in", name, i) for i in range(r * c)], p=frozenset([name]))


def sym(name, n):
    return M(n, n, [H("in", name, min(i, j), max(i, j)) for i in range(n) for j in range(n)], p=frozenset([name]))


def sc(name):
    return M(1, 1, [H("in", name)], p=frozenset([name]))


def stack(*vs):
    return M(sum(v.r for v in vs), vs[0].c, [y for v in vs for y in v.x], p=frozenset().union(*[v.p for v in vs]))


def skew(v):
    x, y, z = v.x
    n = lambda a: c_mul(Pm - 1, a)
    return M(3, 3, [0, n(z), y, z, 0, n(x), n(y), x, 0], p=v.p)


def cross(a, b):
    return mul(skew(a), b)


def dot(a, b):
    s = 0
    for x, y in zip(a.x, b.x):
        s = c_add(s, c_mul(x, y))
    return M(1, 1, [s], p=a.p | b.p)


def det(a):
    if not a.known():
        return None
    if a.r == 1:
        return a.x[0]
    t = 0
    for j in range(a.c):
        m = M(a.r - 1, a.c - 1, [a.at(i, k) for i in range(1, a.r) for k in range(a.c) if k != j])
        t += (-1) ** j * a.x[j] * det(m)
    return t % Pm


def minverse(a):
    """inverse by elimination; None when not square or not invertible in the field"""
    if a.r != a.c or not a.known():
        return unknown(a.r, a.c) if a.r == a.c else None
    n = a.r
    m = [list(a.x[i * n:(i + 1) * n]) + [1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        pv = next((k for k in range(i, n) if m[k][i]), None)
        if pv is None:
            return None
        m[i], m[pv] = m[pv], m[i]
        d = inv(m[i][i])
        m[i] = [y * d % Pm for y in m[i]]
        for k in range(n):
            if k != i and m[k][i]:
                f = m[k][i]
                m[k] = [(y - f * z) % Pm for y, z in zip(m[k], m[i])]
    return M(n, n, [y for row in m for y in row[n:]], p=a.p)


# ---- rotations
def ldl(a):
    """inverses (Li, Ui) of the factors of a = L U with L unit lower and U = D L', or None"""
    n = a.r
    if n != a.c or not a.known():
        return None
    d, l = [0] * n, [[0] * n for _ in range(n)]
    for i in range(n):
        l[i][i] = 1
        for j in range(i + 1):
            x = (a.at(i, j) - sum(l[i][k] * d[k] * l[j][k] for k in range(j))) % Pm
            if i == j:
                if not x:
                    return None
                d[i] = x
            else:
                l[i][j] = x * inv(d[j]) % Pm
    L = minverse(M(n, n, [l[i][j] for i in range(n) for j in range(n)], p=a.p))
    return L, mul(L.T, M(n, n, [inv(d[i]) if i == j else 0 for i in range(n) for j in range(n)], p=a.p))


def q_of(x, y, z, w, p=frozenset()):
    return M(4, 1, [x, y, z, w], "q", p)


def qmul(a, b):
    ax, ay, az, aw = a.x
    bx, by, bz, bw = b.x
    f = lambda *t: None if any(s is None for s in t) else None
    if not (a.known() and b.known()):
        return unknown(4, 1, "q")
    return q_of((aw * bx + ax * bw + ay * bz - az * by) % Pm, (aw * by - ax * bz + ay * bw + az * bx) % Pm,
                (aw * bz + ax * by - ay * bx + az * bw) % Pm, (aw * bw - ax * bx - ay * by - az * bz) % Pm, a.p | b.p)


def qconj(q):
    return M(4, 1, [c_mul(Pm - 1, y) for y in q.x[:3]] + [q.x[3]], "q", q.p)


def q2R(q):
    if not q.known():
        return unknown(3, 3)
    x, y, z, w = q.x
    n = inv((x * x + y * y + z * z + w * w) % Pm)
    t = 2 * n
    return M(3, 3, [(1 - t * (y * y + z * z)) % Pm, t * (x * y - z * w) % Pm, t * (x * z + y * w) % Pm,
                    t * (x * y + z * w) % Pm, (1 - t * (x * x + z * z)) % Pm, t * (y * z - x * w) % Pm,
                    t * (x * z - y * w) % Pm, t * (y * z + x * w) % Pm, (1 - t * (x * x + y * y)) % Pm], p=q.p)


def R2q(R):
    if not R.known():
        return unknown(4, 1, "q")
    tr = (1 + R.at(0, 0) + R.at(1, 1) + R.at(2, 2)) % Pm
    if not tr:
        return unknown(4, 1, "q")
    s = inv(2 * sqrt(tr) % Pm)
    return q_of((R.at(2, 1) - R.at(1, 2)) * s % Pm, (R.at(0, 2) - R.at(2, 0)) * s % Pm, (R.at(1, 0) - R.at(0, 1)) * s % Pm, tr * s * s * 2 * sqrt(tr) % Pm, R.p)


def qexp(v):
    """rotation vector -> unit quaternion"""
    if not v.known():
        return unknown(4, 1, "q")
    n = sum(y * y for y in v.x) % Pm
    d = inv((1 + n) % Pm)
    q = q_of(*[2 * y * d % Pm for y in v.x], (1 - n) * d % Pm, v.p)
    LOGS.setdefault(q2R(q).x, v.x)
    return q


LOGS = {}


def Rlog(R):
    """rotation matrix -> rotation vector"""
    if not R.known():
        return unknown(3, 1)
    v = LOGS.get(R.x)
    if v is not None:
        return M(3, 1, v, p=R.p)
    w = LOGS.get(R.T.x)
    if w is not None:
        return -M(3, 1, w, p=R.p)
    q = R2q(R)
    d = c_inv((1 + q.x[3]) % Pm) if q.x[3] is not None else None
    v = M(3, 1, [c_mul(y, d) for y in q.x[:3]], p=R.p)
    LOGS.setdefault(R.x, v.x)
    return v


def toR(a):
    if a.k == "q":
        return q2R(a)
    return M(3, 3, a.x, p=a.p)


def quat(name):
    """an unknown unit quaternion"""
    u = q_of(*[H("in", name, i) for i in range(4)])
    n = inv(sum(y * y for y in u.x) % Pm)
    q = qmul(u, u)
    return M(4, 1, [y * n % Pm for y in q.x], "q", frozenset([name]))


def rot(name):
    return M(3, 3, q2R(quat(name)).x, p=frozenset([name]))


def same(a, b):
    """True / False / None (undecided); quaternions up to sign"""
    if not isinstance(a, M) or not isinstance(b, M):
        return None
    if a.k != "m" or b.k != "m":
        if a.k == "m" and a.r == 4:
            a = M(4, 1, a.x, "q", a.p)
        if b.k == "m" and b.r == 4:
            b = M(4, 1, b.x, "q", b.p)
        a, b = toR(a), toR(b)
    if (a.r, a.c) != (b.r, b.c):
        return False
    r = True
    for x, y in zip(a.x, b.x):
        if x is None or y is None:
            r = None if r else r
        elif x != y:
            return False
    return r


def relate(a, b):
    """how a differs from b, when it is simple to say"""
    if not (isinstance(a, M) and isinstance(b, M)) or a.k != "m" or (a.r, a.c) != (b.r, b.c):
        return ""
    if all(y == 0 for y in a.x):
        return " (it is zero)"
    for n in range(-12, 13):
        for d in range(1, 13):
            if n and all(y is not None and z is not None and y * d % Pm == n * z % Pm for y, z in zip(a.x, b.x)):
                return " (it is %s times what it should be)" % Fraction(n, d)
    return ""


CONV = {"rotationVectorToQuaternion": "q", "rotationVectorToRotationMatrix": "R", "rotationVectorToAngleAxis": "aa", "quaternionToRotationVector": "v",
        "rotationMatrixToRotationVector": "v", "rotationMatrixToQuaternion": "q"}
WHOLE = ("noalias", "derived", "matrix", "array", "coeffs", "eval")


def tsize(t):
    r, c = t.get("rows"), t.get("cols")
    return (r if r and r > 0 else None), (c if c and c > 0 else None)


def tkind(t):
    n = (t.get("cls") or "") + " " + t.get("c", "")[:60] if t else ""
    if "Quaternion" in n:
        return "q"
    if "AngleAxis" in n:
        return "aa"
    return "m"


def coerce(v, t):
    """v converted to type t"""
    if not isinstance(v, M) or not t:
        return v
    k = tkind(t)
    if k == v.k:
        return v
    if k == "q":
        if v.k == "m" and (v.r, v.c) == (4, 1):
            return M(4, 1, v.x, "q", v.p)
        if v.k == "aa" or (v.r, v.c) == (3, 3):
            return R2q(toR(v))
    elif k == "aa":
        return M(3, 3, toR(v).x, "aa", v.p) if v.k == "q" or (v.r, v.c) == (3, 3) else None
    elif v.k in ("q", "aa"):
        r, c = tsize(t)
        if v.k == "aa" or (r, c) == (3, 3):
            return toR(v)
        return M(v.r, v.c, v.x, "m", v.p)
    return v


def cells(r, c, sub):
    """indices (row by row) designated by views of an r x c matrix -> (rows, columns, list) or None"""
    h, w, ix = r, c, list(range(r * c))

    def pick(r0, c0, hh, ww):
        nonlocal h, w, ix
        if None in (r0, c0, hh, ww) or not all(isinstance(y, int) for y in (r0, c0, hh, ww)) or r0 < 0 or c0 < 0 or hh < 0 or ww < 0 or r0 + hh > h or c0 + ww > w:
            return False
        ix = [ix[i * w + j] for i in range(r0, r0 + hh) for j in range(c0, c0 + ww)]
        h, w = hh, ww
        return True
    for s in sub:
        n, a = s.d[0], s.d[1]
        t = [int(str(y)) for y in s.d[2] if str(y).lstrip("-").isdigit()]
        if n in WHOLE:
            continue
        a = [int(y) if isinstance(y, float) and y == int(y) else y for y in a]
        row = h == 1 and w > 1
        ok = False
        if n in ("segment", "head", "tail"):
            ln = t[0] if t and t[0] >= 0 else a[-1] if a and (n != "segment" or len(a) > 1) else None
            st = (a[0] if a else None) if n == "segment" else 0
            if ln is None:
                return None
            if n == "tail":
                st = (w if row else h) - ln
            ok = pick(0, st, 1, ln) if row else pick(st, 0, ln, 1)
        elif n in ("[]", "()", "coeff", "coeffRef", "x", "y", "z", "w"):
            if n in ("x", "y", "z", "w"):
                a = ["xyzw".index(n)]
            if len(a) == 1:
                ok = pick(0, a[0], 1, 1) if row else pick(a[0], 0, 1, 1)
            elif len(a) == 2:
                ok = pick(a[0], a[1], 1, 1)
        elif n == "vec":
            ok = pick(0, 0, 3, 1)
        elif n == "block":
            d = t[:2] if len(t) >= 2 else a[2:4]
            ok = len(d) == 2 and len(a) >= 2 and pick(a[0], a[1], d[0], d[1])
        elif n.endswith("Corner"):
            d = t[:2] if len(t) >= 2 else a[:2]
            ok = len(d) == 2 and None not in d and pick(h - d[0] if "bottom" in n else 0, w - d[1] if "Right" in n else 0, d[0], d[1])
        elif n in ("topRows", "bottomRows", "leftCols", "rightCols"):
            k = t[0] if t else a[0] if a else None
            if k is None:
                return None
            ok = pick(0, 0, k, w) if n == "topRows" else pick(h - k, 0, k, w) if n == "bottomRows" else pick(0, 0, h, k) if n == "leftCols" else pick(0, w - k, h, k)
        elif n in ("middleRows", "middleCols"):
            k = t[0] if t else a[1] if len(a) > 1 else None
            ok = bool(a) and (pick(a[0], 0, k, w) if n == "middleRows" else pick(0, a[0], h, k))
        elif n == "col":
            ok = bool(a) and pick(0, a[0], h, 1)
        elif n == "row":
            ok = bool(a) and pick(a[0], 0, 1, w)
        elif n == "diagonal" and not a:
            m = min(h, w)
            ix = [ix[i * w + i] for i in range(m)]
            h, w = m, 1
            ok = True
        if not ok:
            return None
    return h, w, ix


SAME = {"noalias", "eval", "derived", "matrix", "array", "cast", "u+", "full", "toDenseMatrix", "finished", "operator()", "selfadjointView"}
FUN = {"sin", "cos", "tan", "exp", "log", "asin", "acos", "atan", "atan2", "tanh", "sinh", "cosh", "ceil", "floor", "round"}


class FpDomain(Domain):
    gcache = {}

    def __init__(self, keep=None, consts=None):
        self.fails = []
        self.oob = []
        self.consts = consts or {}
        self.opaque_fns = {}
        self.conv = True        # conversions between representations of rotations are taken as such
        self.bounds = None      # number -> (least, greatest) value of quantities compared
        self.angles = []        # (angle, multiple of its cosine, same multiple of its sine)

    # -- reading and writing
    def const(self, I, node, c):
        if c is None or isinstance(c, bool) or not isinstance(c, (int, float)):
            return None
        try:
            return S(c)
        except (TypeError, ValueError, OverflowError):
            return None

    def base(self, I, st, loc, node):
        v = st.d.get(loc)
        if v is None and loc in st.c and isinstance(st.c[loc], (int, float)):
            v = S(st.c[loc])
        if v is None and len(loc) == 1 and isinstance(loc[0], tuple) and loc[0][0] == "g":
            v = self.consts.get(loc[0][1])
            if v is None:
                v = self.glob(I, loc[0][1])
        return v

    def glob(self, I, name):
        """value of a constant with static storage, from its initialiser"""
        if name not in self.gcache:
            self.gcache[name] = None
            for (n, _, _), g in I.prog.globals.items():
                if n == name and g.get("init") is not None:
                    fr = Frame({"q": name, "p": [], "usr": name, "file": g.get("file"), "l": g.get("l")}, None, None)
                    st = St()
                    loc = (("init", name),)
                    try:
                        r = I.init_loc(g["init"], st, fr, loc, g)
                    except Exception:
                        r = []
                    if len(r) == 1:
                        self.gcache[name] = self.base(I, r[0], loc, g)
                    break
        return self.gcache[name]

    def read(self, I, st, val, node, fr):
        v = self.base(I, st, val.loc, node)
        if val.sub:
            if not isinstance(v, M):
                return None
            r = cells(v.r, v.c, val.sub)
            if r is None:
                self.note_oob(I, st, v, val, node, fr)
                return None
            k = v.k if all(x.name in ("noalias", "derived") for x in val.sub) else "m"
            if v.k == "aa" and k == "m":
                return None
            return M(r[0], r[1], [v.x[i] for i in r[2]], k, v.p)
        return v

    def note_oob(self, I, st, v, val, node, fr):
        if all(isinstance(y, (int, float)) for x in val.sub for y in x.d[1]) and all(x.name not in ("triangularView", "selfadjointView") for x in val.sub):
            self.oob.append((val.sub[-1].node or node, fr, "%s of a %dx%d matrix" % (" ".join(map(repr, val.sub)), v.r, v.c)))

    def write(self, I, st, lhs, val, node, fr, op="="):
        if lhs.loc is None:
            return
        v = val.v if val is not None else None
        if v is None and val is not None and val.c is not None and op in ("=", "init"):
            v = self.const(I, node, val.c)
        if op == "copy":
            return
        if op.startswith("method:"):
            m = op[7:]
            b = self.base(I, st, lhs.loc, node)
            if m in ("normalize", "stableNormalize") and isinstance(b, M):
                r = cells(b.r, b.c, lhs.sub)
                if r is None:
                    st.d.pop(lhs.loc, None)
                    return
                if b.k == "q":
                    return
                x = list(b.x)
                sm = M(r[0], r[1], [b.x[i] for i in r[2]])
                nn = c_inv(sqrt(dot(sm, sm).x[0]))
                for i in r[2]:
                    x[i] = c_mul(x[i], nn)
                st.d[lhs.loc] = M(b.r, b.c, x, b.k, b.p)
                return
            if m in ("transposeInPlace", "adjointInPlace") and isinstance(b, M) and not lhs.sub:
                st.d[lhs.loc] = b.T
                return
            if m in ("data", "cols", "rows", "size", "llt", "begin", "end"):
                return
        if lhs.sub and op not in SETTERS_ and all(x.name in ("noalias", "derived") for x in lhs.sub):
            lhs = Val(loc=lhs.loc, node=lhs.sub[0].node.get("o") if lhs.sub[0].node is not None and lhs.sub[0].node.get("o") is not None else lhs.node)
        if lhs.sub:
            b = self.base(I, st, lhs.loc, node)
            if not isinstance(b, M):
                o = None
                for x in lhs.sub:
                    if x.node is not None and x.node.get("o") is not None:
                        o = I.prog.type(x.node["o"])
                        break
                r0, c0 = tsize(o or {})
                if not r0 or not c0:
                    st.d.pop(lhs.loc, None)
                    return
                b = unknown(r0, c0)
            r = cells(b.r, b.c, lhs.sub)
            if r is None:
                self.note_oob(I, st, b, lhs, node, fr)
                # unknown place: the whole becomes unknown
                st.d[lhs.loc] = unknown(b.r, b.c, b.k)
                return
            x = list(b.x)
            if op == "comma":
                v = self.fill(r[0], r[1], v)
            if isinstance(v, M) and (op in SETTERS_ or (v.r == v.c == 1 and len(r[2]) != 1)):
                if op == "setIdentity":
                    new = eye(r[0], r[1]).x
                elif op == "setZero":
                    new = [0] * len(r[2])
                elif v.r == v.c == 1:
                    new = [v.x[0]] * len(r[2])
                else:
                    new = [None] * len(r[2])
            elif op == "setIdentity":
                new = eye(r[0], r[1]).x
            elif op == "setZero":
                new = [0] * len(r[2])
            elif isinstance(v, M) and len(v.x) == len(r[2]):
                if v.k == "aa" or (v.k == "q" and len(r[2]) == 9):
                    v = toR(v)
                new = v.x
                if (v.r, v.c) != (r[0], r[1]) and v.r != 1 and v.c != 1:
                    new = [None] * len(r[2])
            else:
                if isinstance(v, M):
                    self.oob.append((node, fr, "a %dx%d value is put into %s of a %dx%d matrix" % (v.r, v.c, " ".join(map(repr, lhs.sub)), b.r, b.c)))
                new = [None] * len(r[2])
            for i, y in zip(r[2], new):
                x[i] = y
            k = "m" if b.k == "aa" else b.k
            p = b.p | (v.p if isinstance(v, M) else frozenset())
            st.d[lhs.loc] = M(b.r, b.c, x, k, p)
            return
        t = I.prog.type(lhs.node) if lhs.node is not None else {}
        if op in ("setZero", "setIdentity", "setConstant", "setOnes", "fill", "setRandom") and not (isinstance(v, M) and (v.r, v.c) != (1, 1)):
            b = self.base(I, st, lhs.loc, node)
            r, c = (b.r, b.c) if isinstance(b, M) else tsize(I.prog.type(node.get("o")) if node.get("o") else t)
            if isinstance(b, M) and b.k == "q" or tkind(t) == "q":
                v = q_of(0, 0, 0, 1) if op == "setIdentity" else unknown(4, 1, "q")
            elif r and c:
                v = zero(r, c) if op == "setZero" else eye(r, c) if op == "setIdentity" else M(r, c, [v.x[0]] * (r * c), p=v.p) if isinstance(v, M) and op in ("setConstant", "fill") else M(r, c, [1] * (r * c)) if op == "setOnes" else unknown(r, c)
            else:
                v = None
        elif op in ("resize", "conservativeResize"):
            b = self.base(I, st, lhs.loc, node)
            a = val.v if isinstance(val.v, tuple) else None
            v = None
            if a and a[0] == "sz":
                r, c = a[1], a[2]
                if isinstance(b, M) and (b.r, b.c) == (r, c):
                    v = b
                elif op == "conservativeResize" and isinstance(b, M):
                    v = M(r, c, [b.at(i, j) if i < b.r and j < b.c else None for i in range(r) for j in range(c)], p=b.p)
                else:
                    v = unknown(r, c)
        elif op == "comma":
            b = self.base(I, st, lhs.loc, node)
            r, c = (b.r, b.c) if isinstance(b, M) else tsize(t)
            v = self.fill(r, c, v)
        elif isinstance(v, M):
            v = coerce(v, t)
            if op in ("init", "=", "assign"):
                self.fits(v, t, node, fr)
        if isinstance(v, tuple) and v and v[0] in ("sz", "comma"):
            v = None
        if v is None:
            st.d.pop(lhs.loc, None)
        else:
            st.d[lhs.loc] = v

    def fits(self, v, t, node, fr):
        """a value whose size the type cannot have is an assertion of Eigen"""
        r, c = tsize(t)
        if "rows" not in t or not isinstance(v, M) or v.k != "m" or tkind(t) != "m" or (v.r, v.c) == (1, 1) or None in (v.r, v.c) or not (r or c):
            return
        if (r in (None, v.r) and c in (None, v.c)) or (1 in (r, c) and 1 in (v.r, v.c) and (r or c) and (None in (r, c) or r * c == v.r * v.c)):
            return
        self.oob.append((node, fr, "a %dx%d value is put into a matrix of %sx%s" % (v.r, v.c, r or "any", c or "any")))

    def fill(self, r, c, v):
        """cells of a comma initialiser"""
        if not (isinstance(v, tuple) and v[0] == "comma") or not r or not c:
            return None
        x = [None] * (r * c)
        i = j = h = 0
        p = frozenset()
        for m in v[1]:
            if not isinstance(m, M):
                return None
            p |= m.p
            if j == c:
                i, j = i + h, 0
            h = m.r
            if i + m.r > r or j + m.c > c:
                return None
            for a in range(m.r):
                for b in range(m.c):
                    x[(i + a) * c + j + b] = m.at(a, b)
            j += m.c
        return M(r, c, x, p=p)

    # -- operations
    def op(self, I, st, name, node, vals, fr):
        r = self.compute(I, st, name, node, vals, fr)
        if self.bounds is None or not isinstance(r, M) or len(r.x) != 1 or r.x[0] is None or not 1 <= len(vals) <= 2:
            return r
        iv = [self.interval(v) for v in vals]
        n = name.lstrip(".")
        if None in iv:
            return r
        lo, hi = None, None
        a, b = iv[0], iv[-1]
        if n in ("ceil", "floor"):
            k = [getattr(math, n)(x) for x in a]
            return S(k[0]) if k[0] == k[1] else r
        if len(iv) == 2 and n in ("+", "-", "*") or (n == "/" and b[0] * b[1] > 0):
            c = [{"+": x + y, "-": x - y, "*": x * y}[n] if n != "/" else x / y for x in a for y in b]
            lo, hi = min(c), max(c)
        elif len(iv) == 1 and n in ("u-", "-"):
            lo, hi = -a[1], -a[0]
        elif len(iv) == 1 and n == "sqrt" and a[0] >= 0:
            lo, hi = math.sqrt(a[0]), math.sqrt(a[1])
        if lo is not None and r.x[0] not in self.bounds:
            self.bounds[r.x[0]] = (lo, hi)
        return r

    def compute(self, I, st, name, node, vals, fr):
        n = name.lstrip(".")
        vs = []
        for v in vals:
            x = v.v
            if x is None and v.c is not None and (not isinstance(v.c, bool) or n in ("+", "-", "*")):
                x = self.const(I, node, int(v.c) if isinstance(v.c, bool) else v.c)
            vs.append(x)
        t = I.prog.type(node) if node is not None else {}
        if n == "comma":
            return ("comma", tuple(x if isinstance(x, M) else None for x in vs))
        if n in ("resize", "conservativeResize", "setZero", "setIdentity", "setOnes", "setConstant", "setRandom") and node.get("o") is not None:
            ot = I.prog.type(node["o"])
            cs = [v.c for v in vals]
            if n == "setConstant":
                if len(cs) == 1:
                    return vs[0]
                cs, val = cs[:-1], vs[-1]
            if cs and all(isinstance(c, int) for c in cs):
                if len(cs) == 1:
                    r, c = (1, cs[0]) if ot.get("rows") == 1 else (cs[0], 1)
                else:
                    r, c = cs[0], cs[1]
                if n == "setZero":
                    return zero(r, c)
                if n == "setIdentity":
                    return eye(r, c)
                if n == "setOnes":
                    return M(r, c, [1] * (r * c))
                if n in ("resize", "conservativeResize"):
                    return ("sz", r, c)
            return None
        if n == "ctor":
            return self.ctor(I, node, vals, vs, t)
        if n in ("rows", "cols", "size") and len(vs) == 1 and isinstance(vs[0], M):
            return S({"rows": vs[0].r, "cols": vs[0].c, "size": vs[0].r * vs[0].c}[n])
        if n in ("++", "--") and vs and isinstance(vs[0], M):
            return add(vs[0], S(1), 1 if n == "++" else -1)
        if not vs or any(not isinstance(v, M) for v in vs):
            if n == "/" and len(vs) == 2 and vs[0] is None and isinstance(vs[1], M):
                return None
            return None
        a = vs[0]
        if len(vs) == 1:
            if n in SAME:
                return coerce(a, t) if n == "cast" and (t.get("rows") or tkind(t) != "m") else a
            if n in ("u-", "-"):
                return -a if a.k == "m" else None
            if n in ("transpose", "adjoint", "conjugate"):
                return qconj(a) if a.k == "q" else M(3, 3, a.T.x, "aa", a.p) if a.k == "aa" else a if n == "conjugate" else a.T
            if n == "inverse":
                return qconj(a) if a.k == "q" else M(3, 3, a.T.x, "aa", a.p) if a.k == "aa" else minverse(a)
            if n in ("toRotationMatrix", "matrix"):
                return a if a.r == 2 else toR(a)
            if n in ("normalized", "stableNormalized"):
                if a.k == "q":
                    return a
                return mul(a, M(1, 1, [c_inv(sqrt(dot(a, a).x[0]))]))
            if n == "coeffs":
                return M(a.r, a.c, a.x, "m", a.p)
            if n == "vec":
                return M(3, 1, a.x[:3], p=a.p)
            if n in ("x", "y", "z", "w") and "xyzw".index(n) < len(a.x) and a.k != "aa":
                return M(1, 1, [a.x["xyzw".index(n)]], p=a.p)
            if n == "squaredNorm":
                return dot(a, a)
            if n in ("norm", "stableNorm"):
                return M(1, 1, [sqrt(dot(a, a).x[0])], p=a.p)
            if n == "sum":
                s = 0
                for y in a.x:
                    s = c_add(s, y)
                return M(1, 1, [s], p=a.p)
            if n == "determinant" and a.r == a.c and a.r <= 4:
                return M(1, 1, [det(a)], p=a.p)
            if n == "trace" and a.r == a.c:
                s = 0
                for i in range(a.r):
                    s = c_add(s, a.at(i, i))
                return M(1, 1, [s], p=a.p)
            if n == "angle" and a.k == "aa":
                return M(1, 1, [sqrt(dot(Rlog(toR(a)), Rlog(toR(a))).x[0])], p=a.p)
            if n == "axis" and a.k == "aa":
                v = Rlog(toR(a))
                return mul(v, M(1, 1, [c_inv(sqrt(dot(v, v).x[0]))]))
            if n == "square" and a.k == "m":
                return M(a.r, a.c, [c_mul(x, x) for x in a.x], p=a.p)
            if n == "asDiagonal":
                m = len(a.x)
                return M(m, m, [a.x[i] if i == j else 0 for i in range(m) for j in range(m)], p=a.p)
            if n == "diagonal":
                return M(min(a.r, a.c), 1, [a.at(i, i) for i in range(min(a.r, a.c))], p=a.p)
            if n in ("sqrt",) and len(a.x) == 1:
                return M(1, 1, [sqrt(a.x[0])], p=a.p)
            if n in ("llt", "ldlt", "partialPivLu", "fullPivLu", "colPivHouseholderQr", "householderQr", "lu") and a.r == a.c:
                return ("dec", a)
            if len(a.x) == 1 and a.x[0] is not None:
                x = a.x[0]
                if n in ("sin", "cos"):
                    return M(1, 1, [trig(x)[n == "sin"]], p=a.p)
                if n in ("asin", "acos"):
                    for ang, c, sn in self.angles:
                        if x == (sn if n == "asin" else c):
                            return M(1, 1, [ang if n == "asin" or ang in POS else None], p=a.p)
                if n in ("abs", "fabs"):
                    if small(x) is not None:
                        return S(abs(small(x)))
                    return M(1, 1, [H("abs", x * x % Pm)], p=a.p)
                if n in FUN:
                    return M(1, 1, [H(n, x)], p=a.p)
            return None
        b = vs[1]
        if n in ("+", "-"):
            r = add(a, b, 1 if n == "+" else -1) if a.k == b.k == "m" else None
            if r is None and a.k == b.k == "m" and not t.get("k") in ("float", "int"):
                if len(b.x) == 1:       # array plus scalar
                    return M(a.r, a.c, [c_add(x, b.x[0], 1 if n == "+" else -1) for x in a.x], p=a.p | b.p)
                return None
            return r
        if n == "*" and a.k == b.k == "m" and len(a.x) == len(b.x) > 1 and any("ArrayWrapper" in I.prog.type(v.node).get("s", "") or "Array<" in I.prog.type(v.node).get("s", "") for v in vals if v.node is not None):
            return M(a.r, a.c, [c_mul(x, y) for x, y in zip(a.x, b.x)], p=a.p | b.p)
        if n == "*":
            return self.times(a, b)
        if n == "/" and self.bounds is not None and b.x == (0,) and a.k == "m":
            x = H("nan", len(NANS))
            NANS.add(x)
            return M(a.r, a.c, [x] * len(a.x), p=a.p)
        if n == "/":
            return mul(a, M(1, 1, [c_inv(b.x[0])], p=b.p)) if len(b.x) == 1 and a.k == "m" else None
        if n == "cross":
            return cross(a, b) if len(a.x) == len(b.x) == 3 else None
        if n == "dot":
            return dot(a, b) if len(a.x) == len(b.x) else None
        if n in ("cwiseProduct", "cwiseQuotient"):
            if (a.r, a.c) != (b.r, b.c):
                return None
            return M(a.r, a.c, [c_mul(x, y if n == "cwiseProduct" else c_inv(y)) for x, y in zip(a.x, b.x)], p=a.p | b.p)
        if n in ("max", "min", "fmax", "fmin") and len(a.x) == len(b.x) == 1:
            if a.x[0] is None or b.x[0] is None:
                return M(1, 1, [None], p=a.p | b.p)
            if a.x == b.x:
                return a
            return M(1, 1, [H(n[-3:], min(a.x[0], b.x[0]), max(a.x[0], b.x[0]))], p=a.p | b.p)
        if n in ("pow",) and len(a.x) == 1 and a.x[0] is not None:
            e = vals[1].c
            if isinstance(e, (int, float)) and e == int(e) and 0 <= e < 20:
                x = pow(a.x[0], int(e), Pm)
                if self.bounds is not None and isinstance(vals[0].c, float):
                    self.bounds[x] = (vals[0].c ** e,) * 2
                return M(1, 1, [x], p=a.p)
            return M(1, 1, [H("pow", a.x[0], b.x[0])], p=a.p | b.p) if b.x[0] is not None else None
        if n == "atan2" and len(a.x) == len(b.x) == 1 and None not in (a.x[0], b.x[0]):
            y, x = a.x[0], b.x[0]
            for ang, c, sn in self.angles:
                if y * c % Pm == x * sn % Pm and (x or y):
                    k = x * inv(c) % Pm if c else y * inv(sn) % Pm
                    if k == 1 or k in POS or any(k == u * w % Pm for u in POS for w in POS):
                        return M(1, 1, [ang], p=a.p | b.p)
                    if Pm - k not in POS and k != Pm - 1:
                        return M(1, 1, [None], p=a.p | b.p)
            return M(1, 1, [H(n, a.x[0], b.x[0])], p=a.p | b.p)
        if n in (".()", "()", "[]", "coeff"):
            r = cells(a.r, a.c, [ViewD(("()", tuple(v.c for v in vals[1:]), (), 0), (), node)])
            return M(1, 1, [a.x[r[2][0]]], p=a.p) if r and a.k != "aa" else None
        if n in ("segment", "head", "tail", "block", "col", "row", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "topRows", "bottomRows", "leftCols", "rightCols"):
            r = cells(a.r, a.c, [ViewD((n, tuple(v.c for v in vals[1:]), tuple(node.get("ta", [])), 0), (), node)])
            return M(r[0], r[1], [a.x[i] for i in r[2]], p=a.p) if r else None
        return None

    def interval(self, v):
        if isinstance(v.c, (int, float)) and not isinstance(v.c, bool):
            return v.c, v.c
        if isinstance(v.v, M) and len(v.v.x) == 1:
            c = small(v.v.x[0])
            return (c, c) if c is not None else self.bounds.get(v.v.x[0])
        return None

    def order(self, op, a, b):
        if self.bounds is None:
            return None
        a, b = self.interval(a), self.interval(b)
        if a is None or b is None:
            return None
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        if op == "<":
            return True if a[1] < b[0] else False if a[0] >= b[1] else None
        return True if a[1] <= b[0] else False if a[0] > b[1] else None

    def times(self, a, b):
        if a.k == "m" and b.k == "m":
            return mul(a, b)
        if a.k in ("q", "aa") and b.k in ("q", "aa"):
            if a.k == "q" and b.k == "q":
                return qmul(a, b)
            return qmul(a if a.k == "q" else R2q(toR(a)), b if b.k == "q" else R2q(toR(b)))
        if a.k in ("q", "aa"):
            if (b.r, b.c) in ((3, 1), (3, 3)):
                return mul(toR(a), b)
            return None
        if (a.r, a.c) == (3, 3):
            return mul(a, toR(b))
        return None

    def ctor(self, I, node, vals, vs, t):
        k = tkind(t)
        r, c = tsize(t)
        ints = all((v.c is not None and isinstance(v.c, int)) and I.prog.type(v.node).get("k") == "int" for v in vals) if vals else False
        if "Rotation2D" in t.get("s", "") or "Rotation2D" in t.get("c", ""):
            if len(vs) == 1 and isinstance(vs[0], M):
                if (vs[0].r, vs[0].c) == (2, 2):
                    return vs[0]
                if len(vs[0].x) == 1 and vs[0].x[0] is not None:
                    a, b = trig(vs[0].x[0])
                    return M(2, 2, [a, (-b) % Pm, b, a], p=vs[0].p)
            return None
        if k == "q":
            if len(vs) == 4 and all(isinstance(v, M) and len(v.x) == 1 for v in vs):
                return q_of(vs[1].x[0], vs[2].x[0], vs[3].x[0], vs[0].x[0], frozenset().union(*[v.p for v in vs]))
            if len(vs) == 1 and isinstance(vs[0], M):
                return coerce(vs[0], t)
            return unknown(4, 1, "q")
        if k == "aa":
            if len(vs) == 2 and all(isinstance(v, M) for v in vs):
                m = mul(vs[1], vs[0])
                return M(3, 3, q2R(qexp(m)).x, "aa", m.p) if m is not None and (m.r, m.c) == (3, 1) else None
            if len(vs) == 1 and isinstance(vs[0], M):
                return coerce(vs[0], t)
            return None
        if "rows" not in t:
            return vs[0] if len(vs) == 1 else None
        if not vs:
            return unknown(r, c) if r and c else unknown(r or 0, c or 0)
        if r and c:
            if len(vs) == r * c and all(v is None or isinstance(v, M) and len(v.x) == 1 for v in vs):
                return M(r, c, [v.x[0] if v is not None else None for v in vs], p=frozenset().union(*[v.p for v in vs if v is not None]))
            if len(vs) == 1 and isinstance(vs[0], M):
                v = coerce(vs[0], t)
                self.fits(v, t, node, None)
                if isinstance(v, M) and (v.r, v.c) == (1, 1) and (r, c) != (1, 1):
                    return unknown(r, c)
                return v
            return None
        if ints and len(vs) <= 2:
            if len(vs) == 1:
                return unknown(vals[0].c, 1) if c == 1 else unknown(1, vals[0].c) if r == 1 else unknown(vals[0].c, 1)
            return unknown(vals[0].c, vals[1].c)
        if len(vs) == 1:
            if isinstance(vs[0], M):
                self.fits(coerce(vs[0], t), t, node, None)
            return coerce(vs[0], t) if isinstance(vs[0], M) else vs[0] if isinstance(vs[0], tuple) and vs[0][0] == "dec" else None
        return None

    def call(self, I, st, node, fn, obj, args, fr):
        if node.get("k") == "ctor" or args is None:
            return None
        name = strip_t(node.get("f", ""))
        short = name.rsplit("::", 1)[-1]
        if name.startswith("stateObservation::kine::") and short in CONV and args and self.conv:
            v = I.rv(st, args[0], node["a"][0], fr).v
            r = None
            if isinstance(v, M):
                w = CONV[short]
                if short.startswith("rotationVectorTo"):
                    q = qexp(v) if len(v.x) == 3 else None
                    r = q if w == "q" or q is None else q2R(q) if w == "R" else M(3, 3, q2R(q).x, "aa", q.p)
                elif w == "v":
                    r = Rlog(toR(v))
                else:
                    r = R2q(toR(v))
            if len(args) > 1 and args[-1].loc is not None and (node.get("pm") or ["v"])[-1] == "r":
                I.write(st, args[-1], Val(v=r, node=node), node, fr, "=")
            return [(st, Val(v=r, node=node))]
        h = self.opaque_fns.get(name) or self.opaque_fns.get(short)
        if h is not None:
            return h(self, I, st, node, obj, args, fr)
        return None

    def ext(self, I, st, node, name, obj, args, fr):
        short = name.rsplit("::", 1)[-1]
        if name.startswith("Eigen") and obj is None and short in ("Zero", "Identity", "Ones", "Constant", "UnitX", "UnitY", "UnitZ", "Random"):
            t = I.prog.type(node)
            r, c = tsize(t)
            av = [I.rv(st, a, n, fr) for a, n in zip(args, node["a"])]
            cs = [a.c for a in av]
            if short == "Constant" and cs:
                cs = cs[:-1]
            if "Quaternion" in name:
                return Val(v=q_of(0, 0, 0, 1) if short == "Identity" else None, node=node)
            if cs and all(isinstance(x, int) for x in cs):
                if len(cs) == 1:
                    r, c = (1, cs[0]) if r == 1 else (cs[0], 1)
                else:
                    r, c = cs
            if r is None or c is None:
                return Val(node=node)
            if short == "Zero":
                v = zero(r, c)
            elif short == "Identity":
                v = eye(r, c)
            elif short == "Ones":
                v = M(r, c, [1] * (r * c))
            elif short == "Constant":
                x = av[-1].v if isinstance(av[-1].v, M) else self.const(I, node, av[-1].c)
                v = M(r, c, [x.x[0]] * (r * c), p=x.p) if isinstance(x, M) else unknown(r, c)
            elif short.startswith("Unit"):
                i = "XYZ".index(short[-1])
                v = M(r, c, [1 if j == i else 0 for j in range(r * c)])
            else:
                v = unknown(r, c)
            return Val(v=v, node=node)
        if obj is not None and name.startswith("Eigen") and short in ("rows", "cols", "size") and not args:
            o = I.rv(st, obj, node["o"], fr).v
            if isinstance(o, M):
                k = {"rows": o.r, "cols": o.c, "size": o.r * o.c}[short]
                return Val(v=S(k), c=k, node=node)
            return Val(node=node)
        if name in ("std::min", "std::max", "std::fmin", "std::fmax", "fmin", "fmax", "std::clamp") and len(args) >= 2:
            vs = [I.rv(st, a, n, fr) for a, n in zip(args, node["a"])]
            if all(isinstance(v.c, (int, float)) for v in vs):
                c = [v.c for v in vs]
                c = min(max(c[0], c[1]), c[2]) if short == "clamp" else min(c) if "min" in short else max(c)
                return Val(v=self.const(I, node, c), c=c, node=node)
            if len(vs) == 2 and isinstance(vs[0].v, M) and isinstance(vs[1].v, M) and vs[0].v.x == vs[1].v.x:
                return vs[0]
            return [(st if i == 0 else st.copy(), v) for i, v in enumerate(vs)]
        if obj is not None and short == "isZero":
            v = I.rv(st, obj, node["o"], fr).v if self.bounds is not None else None
            return Val(c=not any(v.x) if isinstance(v, M) and v.known() else None, node=node)
        if obj is not None and short == "isUnitary" and self.bounds is not None:
            v = I.rv(st, obj, node["o"], fr).v
            c = None
            if isinstance(v, M) and v.known() and v.k == "m":
                c = mul(v.T, v).x == eye(v.c).x
            return Val(c=c, node=node)
        if obj is not None and name.startswith("Eigen") and short in ("hasNaN", "allFinite"):
            # finite inputs are assumed
            return Val(c=short != "hasNaN", node=node)
        if short in ("matrixL", "matrixU") and obj is not None:
            o = I.rv(st, obj, node["o"], fr).v
            return Val(v=("chol", o[1], short[-1]) if isinstance(o, tuple) and o[0] == "dec" else None, node=node)
        if short in ("transpose", "adjoint") and obj is not None and obj.loc is None and isinstance(obj.v, tuple) and obj.v[0] == "chol":
            return Val(v=("chol", obj.v[1], "L" if obj.v[2] == "U" else "U"), node=node)
        if short in ("solve", "solveInPlace", "inverse") and obj is not None and (args or short == "inverse"):
            o = I.rv(st, obj, node["o"], fr).v
            if isinstance(o, tuple) and o[0] in ("dec", "chol"):
                if o[0] == "dec":
                    i = minverse(o[1])
                else:
                    i = ldl(o[1])
                    i = i[0 if o[2] == "L" else 1] if i is not None else None
                if short == "inverse":
                    return Val(v=i, node=node)
                x = I.rv(st, args[0], node["a"][0], fr).v
                r = mul(i, x) if i is not None and isinstance(x, M) and x.r == i.c else None
                if short == "solve":
                    return Val(v=r, node=node)
                I.write(st, args[0], Val(v=r, node=node), node, fr, "=")
                return Val(node=node)
            if short == "solve":
                return Val(node=node)
        if short == "compute" and obj is not None and obj.loc is not None and args and "Eigen" in name:
            v = I.rv(st, args[0], node["a"][0], fr).v
            if isinstance(v, M):
                st.d[obj.loc] = ("dec", v)
            else:
                st.d.pop(obj.loc, None)
            return Val(loc=obj.loc, node=node)
        return None

    def assume(self, I, st, node, val, pol, fr):
        """a variable found equal to a value has it from there on"""
        op = node.get("op") if isinstance(node, dict) else None
        if op in ("==", "!="):
            es = ([node["o"]] if "o" in node else []) + list(node.get("a") or []) if node.get("k") == "call" else [node.get("a"), node.get("b")]
            if len(es) == 2 and all(isinstance(e, dict) for e in es):
                vs = []
                for e in es:
                    r = I.eval(e, st.copy(), fr)
                    vs.append(r[0][1] if len(r) == 1 else None)
                if None in vs:
                    return st
                eq = (op == "==") == pol
                ws = [v.v if v.loc is None else self.read(I, st, v, e, fr) for v, e in zip(vs, es)]
                if all(isinstance(w, M) and w.known() for w in ws):
                    # values that are the same are equal; different ones are equal for exceptional inputs only
                    return st if (ws[0].x == ws[1].x) == eq else None
                if not eq:
                    return st
                for x, y in ((0, 1), (1, 0)):
                    if vs[x].loc is None or vs[x].sub:
                        continue
                    w = vs[y].v if vs[y].loc is None else self.read(I, st, vs[y], es[y], fr)
                    if w is None and vs[y].c is not None:
                        w = self.const(I, node, vs[y].c)
                    own = self.base(I, st, vs[x].loc, node)
                    if isinstance(w, M) and w.known() and not (isinstance(own, M) and own.known()):
                        st.d[vs[x].loc] = w
                        return st
        return st

    def on_decl(self, I, st, loc, node, fr):
        t = I.prog.type(node)
        st.d.pop(loc, None)
        st.c.pop(loc, None)
        if "rows" in t:
            r, c = tsize(t)
            st.d[loc] = unknown(r or 0, c or 0 if r else 0)
        elif tkind(t) == "q":
            st.d[loc] = unknown(4, 1, "q")

    def join(self, a, b):
        out = {}
        for k in a.keys() & b.keys():
            x, y = a[k], b[k]
            if x == y:
                out[k] = x
            elif isinstance(x, M) and isinstance(y, M) and (x.r, x.c, x.k) == (y.r, y.c, y.k):
                out[k] = M(x.r, x.c, [u if u == v else None for u, v in zip(x.x, y.x)], x.k, x.p | y.p)
        return out

    def assert_fails(self, I, node, fr):
        self.fails.append((node, fr))


SETTERS_ = {"setZero", "setIdentity", "setConstant", "setOnes", "fill", "setRandom"}


class FpInterp(Interp):
    """containers of constant size, loops with constant bounds, maps over cells"""

    def loop(self, s, states, fr, cond, inc, body, do=False):
        o = Outcome()
        exits = []
        cur = states
        n = 0
        while cur and n < 200:
            n += 1
            cur = self.merge(cur)
            inp = [x.copy() for x in cur]
            if cond is not None and not (do and n == 1):
                t, f = self.cond(cond, inp, fr)
            else:
                t, f = inp, []
            exits += f
            both = bool(t) and bool(f)
            if both and n > 4 or n > 150:
                rest = Interp.loop(self, s, t, fr, cond, inc, body, do)
                o.r += rest.r
                exits += rest.n
                cur = []
                break
            if not t:
                cur = []
                break
            r = self.exec(body, t, fr)
            o.r += r.r
            exits += r.b
            nxt = r.n + r.k
            if inc is not None:
                n2 = []
                for st in nxt:
                    n2.extend(x for x, _ in self.eval(inc, st, fr))
                nxt = n2
            cur = nxt
        o.n = self.merge(exits)
        return o

    # -- pointers kept in members and variables: what they point to is under "#ptr"
    pointers = True

    def whole(self, t):
        return bool(self.ctype(t))

    def target(self, st, loc):
        t = st.c.get(loc + ("#ptr",)) if loc is not None else None
        if t is None:
            return None
        v = Val(loc=t[0], cls=t[1], c=1)
        v.fn = "ptr"
        return v

    def e_this(self, e, st, fr):
        for s, v in Interp.e_this(self, e, st, fr):
            if v.loc is not None:
                v.fn = "ptr"
                v.c = 1
            return [(s, v)]

    def deref(self, v, node, st=None):
        if st is not None and v.fn != "ptr":
            t = self.target(st, v.loc)
            if t is not None:
                return Val(loc=t.loc, cls=t.cls, node=node)
        r = Interp.deref(self, v, node, st)
        if r.fn == "ptr":
            r = Val(loc=r.loc, sub=r.sub, v=r.v, cls=r.cls, node=r.node)
        return r

    def write(self, st, lhs, val, node, fr, op="="):
        if lhs.loc is not None and not lhs.sub:
            st.c.pop(lhs.loc + ("#ptr",), None)
        Interp.write(self, st, lhs, val, node, fr, op)
        if val.fn == "ptr" and val.loc is not None and not val.sub and lhs.loc is not None and not lhs.sub and op in ("=", "init"):
            st.c[lhs.loc + ("#ptr",)] = (val.loc, val.cls)

    def rv(self, st, val, node, fr):
        t = self.target(st, val.loc) if val.fn is None and not val.sub else None
        if t is not None:
            t.node = val.node
            return t
        r = Interp.rv(self, st, val, node, fr)
        x = r.v
        if r.c is None and isinstance(x, M) and len(x.x) == 1 and not x.p and x.x[0] is not None and (x.x[0] < 2**31 or x.x[0] > Pm - 2**31):
            # a cell computed from constants only
            r = Val(v=x, c=x.x[0] if x.x[0] < 2**31 else x.x[0] - Pm, node=r.node, cls=r.cls)
        return r

    # -- containers: elements under ("i", index) or ("i", key); size in "#size", keys of a map in "#keys"
    def ctype(self, t):
        c = (t.get("c") or "").replace("const ", "")
        for x in CONTAINERS:
            if c.startswith(x + "<"):
                return x
        return None

    def is_obj(self, n):
        t = self.prog.type(n)
        return (t.get("k") == "record" and "rid" in t) or (not t.get("rows") and self.ctype(t) is not None)

    def construct(self, e, st, fr, loc):
        ct = self.ctype(self.prog.type(e))
        if ct and not e.get("copy") and not e.get("move"):
            out = []
            for s, vs in self.eval_list(e["a"], st, fr):
                self.kill(s, loc)
                rv = [self.rv(s, v, n, fr) for v, n in zip(vs, e["a"])]
                if ct == "std::map":
                    s.c[loc + ("#keys",)] = ()
                elif not rv or all(n.get("k") == "defarg" for n in e["a"]):
                    s.c[loc + ("#size",)] = 0
                elif isinstance(rv[0].c, int):
                    s.c[loc + ("#size",)] = rv[0].c
                    if len(rv) > 1 and self.is_elem(e["a"][1]):
                        for i in range(min(rv[0].c, 200)):
                            self.put(s, loc + (("i", i),), vs[1], e["a"][1], e, fr)
                    else:
                        out += [(s2, Val(loc=loc, node=e)) for s2 in self.fresh(s, loc, 0, rv[0].c, e, fr)]
                        continue
                out.append((s, Val(loc=loc, node=e)))
            return out
        if ct and len(e["a"]) == 1:
            out = []
            for s, v in self.eval(e["a"][0], st, fr):
                if v.loc is not None and not v.sub:
                    self.copy_obj(s, loc, v.loc, e, fr)
                out.append((s, Val(loc=loc, node=e)))
            return out
        return Interp.construct(self, e, st, fr, loc)

    def elem_ctor(self, c):
        """default constructor of the elements of a container type, given its name"""
        c = (c or "").replace("const ", "")
        if "<" not in c:
            return None
        a, n = "", 0
        for ch in c[c.index("<") + 1:]:
            if n == 0 and ch in ",>":
                break
            n += (ch == "<") - (ch == ">")
            a += ch
        a = a.strip()
        fs = [f for f in self.prog.methods_of.get(a, ()) if f.get("kind") == "ctor" and not f["p"] and (f.get("body") is not None or f.get("inits"))]
        return (fs[0], a) if fs else None

    def fresh(self, st, loc, i, j, e, fr, t=None):
        """elements i..j-1 as the container makes them -> states"""
        t = t or self.prog.type(e).get("c") or ""
        f = self.elem_ctor(t)
        cur = [st]
        for k in range(i, min(j, 64)):
            L = loc + (("i", k),)
            if f is not None:
                cur = [s for c in cur for s, _ in self.inline(f[0], c, fr, L, f[1], [], e)]
            elif t.split("<", 1)[-1].split(",")[0].strip(" >") in ("double", "int", "unsigned int", "long", "unsigned long", "float", "bool"):
                for s in cur:
                    s.c[L] = 0
        return cur

    def is_elem(self, n):
        return "llocator" not in self.prog.type(n).get("s", "")

    def index(self, st, v, node, fr):
        i = self.rv(st, v, node, fr)
        c = i.c
        if c is None and isinstance(i.v, M) and len(i.v.x) == 1 and i.v.x[0] is not None:
            c = i.v.x[0] if i.v.x[0] < 10**6 else i.v.x[0] - Pm if i.v.x[0] > Pm - 10**6 else None
        return int(c) if isinstance(c, (int, float)) and not isinstance(c, bool) else None

    def itval(self, st, v):
        """iterator held by a value: (container, position)"""
        x = v.v
        if v.loc is not None and not v.sub:
            x = st.d.get(v.loc, x)
        return x[1:] if isinstance(x, tuple) and x and x[0] == "it" else None

    def elem(self, st, L, i, e):
        ks = st.c.get(L + ("#keys",))
        if ks is not None:
            return Val(loc=L + (("i", ks[i]),), node=e, cls=self.rec_of(e)) if i < len(ks) else Val(node=e)
        return Val(loc=L + (("i", i),), node=e, cls=self.rec_of(e))

    def csize(self, st, L):
        ks = st.c.get(L + ("#keys",))
        return len(ks) if ks is not None else st.c.get(L + ("#size",))

    def shift(self, st, L, i, j):
        """removes elements i..j-1 of a sequence"""
        n = st.c[L + ("#size",)]
        for k in range(i, n - (j - i)):
            src, dst = L + (("i", k + j - i),), L + (("i", k),)
            self.kill(st, dst)
            m = len(src)
            for d in (st.c, st.d):
                for key in [key for key in d if key[:m] == src]:
                    d[dst + key[m:]] = d[key]
        for k in range(n - (j - i), n):
            self.kill(st, L + (("i", k),))
        st.c[L + ("#size",)] = n - (j - i)

    def container(self, e, ocls, short, op, st, fr, obj, args):
        argn = e["a"]
        if obj.loc is None or obj.sub:
            return Interp.container(self, e, ocls, short, op, st, fr, obj, args)
        L = obj.loc
        n = self.csize(st, L)
        ks = st.c.get(L + ("#keys",))
        nothing = [(st, Val(node=e))]
        if op == "[]" or short == "at":
            c = self.index(st, args[0], argn[0], fr)
            if c is not None:
                if ks is not None and c not in ks:
                    st.c[L + ("#keys",)] = tuple(sorted(ks + (c,)))
                if ks is None and n is not None and (c < 0 or c >= n):
                    self.dom.oob.append((e, fr, "element %d of a container of %d elements" % (c, n)))
                return [(st, Val(loc=L + (("i", c),), node=e, cls=self.rec_of(e)))]
            return [(st, Val(loc=L + ("[]",), node=e, cls=self.rec_of(e)))]
        if n is None:
            r = Interp.container(self, e, ocls, short, op, st, fr, obj, args)
            if short in ("clear",) or short in ("resize",) and args and isinstance(self.rv(st, args[0], argn[0], fr).c, int):
                pass
            else:
                return r
        if short == "size":
            return [(st, Val(v=S(n), c=n, node=e))]
        if short == "empty":
            return [(st, Val(c=n == 0, node=e))]
        if short in ("front", "back"):
            if not n:
                self.dom.oob.append((e, fr, "%s of an empty container" % short))
                return nothing
            return [(st, self.elem(st, L, 0 if short == "front" else n - 1, e))]
        if short in ("begin", "cbegin", "end", "cend"):
            return [(st, Val(v=("it", L, 0 if "begin" in short else n), node=e))]
        if short in ("rbegin", "crbegin", "rend", "crend"):
            return [(st, Val(v=("it", L, n - 1 if "begin" in short else -1, -1), node=e))]
        if short in ("find", "upper_bound", "lower_bound", "count") and ks is not None:
            c = self.index(st, args[0], argn[0], fr)
            if c is None:
                return nothing
            if short == "count":
                return [(st, Val(c=int(c in ks), node=e))]
            if short == "find":
                i = ks.index(c) if c in ks else len(ks)
            else:
                i = len([k for k in ks if k < c or (k == c and short == "upper_bound")])
            return [(st, Val(v=("it", L, i), node=e))]
        if short in ("resize", "assign") and args:
            v = self.rv(st, args[0], argn[0], fr)
            if isinstance(v.c, int):
                n = n or 0
                for i in range(v.c if short == "resize" else 0, n):
                    self.kill(st, L + (("i", i),))
                if len(args) > 1:
                    for i in range(n if short == "resize" else 0, min(v.c, 200)):
                        self.put(st, L + (("i", i),), args[1], argn[1], e, fr)
                st.c[L + ("#size",)] = v.c
                if len(args) == 1 and short == "resize":
                    return [(s, Val(node=e)) for s in self.fresh(st, L, n, v.c, e, fr, self.prog.type(e["o"]).get("c") if e.get("o") else None)]
                return nothing
        if short == "clear":
            self.kill(st, L, keep=True)
            if ocls == "std::map":
                st.c[L + ("#keys",)] = ()
            else:
                st.c[L + ("#size",)] = 0
            return nothing
        if short in ("push_back", "emplace_back") and len(args) == 1:
            self.put(st, L + (("i", n),), args[0], argn[0], e, fr)
            st.c[L + ("#size",)] = n + 1
            return nothing
        if short == "push_front" and args:
            st.c[L + ("#size",)] = n + 1
            for k in range(n, 0, -1):
                src, dst = L + (("i", k - 1),), L + (("i", k),)
                self.kill(st, dst)
                m = len(src)
                for d in (st.c, st.d):
                    for key in [key for key in d if key[:m] == src]:
                        d[dst + key[m:]] = d[key]
            self.kill(st, L + (("i", 0),))
            self.put(st, L + (("i", 0),), args[0], argn[0], e, fr)
            return nothing
        if short in ("pop_front", "pop_back"):
            if not n:
                self.dom.oob.append((e, fr, "%s of an empty container" % short))
                return nothing
            self.shift(st, L, 0 if short == "pop_front" else n - 1, 1 if short == "pop_front" else n)
            return nothing
        if short == "erase":
            its = [self.itval(st, a) for a in args]
            if ks is not None:
                if its and its[0] is not None:
                    rng = ks[its[0][1]:(its[1][1] if len(its) > 1 and its[1] else its[0][1] + 1)]
                else:
                    c = self.index(st, args[0], argn[0], fr)
                    if c is None:
                        return Interp.container(self, e, ocls, short, op, st, fr, obj, args)
                    rng = (c,) if c in ks else ()
                for k in rng:
                    self.kill(st, L + (("i", k),))
                st.c[L + ("#keys",)] = tuple(k for k in ks if k not in rng)
                return nothing
            if all(i is not None for i in its) and its:
                j = its[1][1] if len(its) > 1 else its[0][1] + 1
                self.shift(st, L, its[0][1], j)
                return [(st, Val(v=("it", L, its[0][1]), node=e))]
        if short in ("reserve", "shrink_to_fit"):
            return nothing
        r = Interp.container(self, e, ocls, short, op, st, fr, obj, args)
        if short not in ("end", "find", "cend", "begin", "max_size", "capacity", "data"):
            st.c.pop(L + ("#size",), None)
            st.c.pop(L + ("#keys",), None)
        return r

    def opaque(self, e, name, st, fr, obj, args):
        op = e.get("op")
        vs = ([obj] if obj is not None else []) + list(args)
        its = [self.itval(st, v) if v is not None else None for v in vs]
        if op and any(i is not None for i in its):
            a = its[0]
            d = a[2] if a and len(a) > 2 else 1     # reverse iterators go down
            if op in ("*", "->") and len(vs) == 1 and a:
                n = self.csize(st, a[0])
                if n is not None and not 0 <= a[1] < n:
                    self.dom.oob.append((e, fr, "an iterator outside of its container is used"))
                    return [(st, Val(node=e))]
                v = self.elem(st, a[0], a[1], e)
                if st.c.get(a[0] + ("#keys",)) is not None:
                    v = Val(loc=("pair",) + v.loc, node=e)
                if op == "->":
                    v.fn = "ptr"
                    if v.cls is None:
                        v.cls = self.pointee(e)
                return [(st, v)]
            if op in ("++", "--") and a:
                new = ("it", a[0], a[1] + d * (1 if op == "++" else -1)) + a[2:]
                if vs[0].loc is not None:
                    st.d[vs[0].loc] = new
                post = len(vs) > 1
                return [(st, Val(v=("it",) + a if post else new, node=e))]
            if op in ("+=", "-=") and a and len(vs) == 2:
                k = self.index(st, vs[1], e["a"][-1], fr)
                if k is not None and vs[0].loc is not None:
                    st.d[vs[0].loc] = ("it", a[0], a[1] + d * (k if op == "+=" else -k)) + a[2:]
                    return [(st, Val(v=st.d[vs[0].loc], node=e))]
            if op in ("+", "-") and a and len(vs) == 2:
                if its[1]:
                    k = d * (a[1] - its[1][1])
                    return [(st, Val(v=S(k), c=k, node=e))]
                k = self.index(st, vs[1], e["a"][-1], fr)
                if k is not None:
                    return [(st, Val(v=("it", a[0], a[1] + d * (k if op == "+" else -k)) + a[2:], node=e))]
            if op in ("==", "!=", "<", ">", "<=", ">=") and len(its) == 2 and None not in its:
                x, y = d * its[0][1], d * its[1][1]
                c = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
                return [(st, Val(c=c, node=e))]
            if op == "=" and obj is not None and obj.loc is not None and its[-1] is not None:
                st.d[obj.loc] = ("it",) + its[-1]
                return [(st, Val(loc=obj.loc, node=e))]
        return Interp.opaque(self, e, name, st, fr, obj, args)

    def pointee(self, e):
        t = self.prog.type(e)
        p = t.get("to")
        return self.prog.types[p].get("rid") if isinstance(p, int) and p >= 0 else None

    def e_mem(self, e, st, fr):
        out = []
        for s, v in Interp.e_mem(self, e, st, fr):
            if v.loc is not None and v.loc[0] == "pair" and v.loc[-1] in ("first", "second"):
                el = v.loc[1:-1]
                if v.loc[-1] == "first":
                    k = el[-1][1]
                    v = Val(v=S(k), c=k, node=e)
                else:
                    v = Val(loc=el, node=e, cls=v.cls)
            out.append((s, v))
        return out

    def decl(self, d, st, fr):
        t = self.prog.type(d)
        if "iterator" in t.get("c", "")[:200] and t.get("k") == "record" and "rid" not in t and "init" in d and not d.get("static"):
            e = d["init"]
            src = e["a"][0] if e["k"] == "ctor" and e["a"] else e
            out = []
            for s, v in self.eval(src, st, fr):
                it = self.itval(s, v)
                if it is None:
                    if v.loc is not None:
                        fr.bind[d["d"]] = Val(loc=v.loc, cls=v.cls, node=d)
                    out.append(s)
                    continue
                fr.bind.pop(d["d"], None)
                s.d[(("v", fr.id, d["d"], d["n"]),)] = ("it",) + it
                out.append(s)
            return out
        return Interp.decl(self, d, st, fr)

    def kill(self, st, loc, keep=False):
        n = len(loc)
        for d in (st.c, st.d):
            for k in [k for k in d if k[:n] == loc and (not keep or len(k) > n)]:
                del d[k]

    def put(self, st, loc, a, node, e, fr):
        if a.loc is not None and not a.sub and self.is_obj(node):
            self.copy_obj(st, loc, a.loc, e, fr)
        else:
            self.write(st, Val(loc=loc, node=None), self.rv(st, a, node, fr), e, fr, "init")

    def e_ctor(self, e, st, fr):
        c = self.prog.type(e).get("cls") or ""
        if c.endswith("Eigen::Map") or "Eigen::Map<" in self.prog.type(e).get("c", "")[:40]:
            out = []
            t = self.prog.type(e)
            for s, vs in self.eval_list(e["a"], st, fr):
                r, cc = tsize(t)
                ns = [self.rv(s, v, n, fr).c for v, n in zip(vs[1:], e["a"][1:])]
                if not r and ns:
                    r = ns[0]
                if not cc:
                    cc = ns[1] if len(ns) > 1 else 1
                val = None
                v = vs[0]
                if v.loc is not None and v.fn == "ptr" and r and cc:
                    b = self.dom.base(self, s, v.loc, e)
                    if isinstance(b, M):
                        ix = cells(b.r, b.c, v.sub) if v.sub else (b.r, b.c, [0])
                        if ix and b.c == 1 and ix[2][0] + r * cc <= len(b.x):
                            f = ix[2][0]
                            val = M(r, cc, [b.x[f + j * r + i] for i in range(r) for j in range(cc)], p=b.p)
                out.append((s, Val(v=val, node=e)))
            return out
        return Interp.e_ctor(self, e, st, fr)

    def e_idx(self, e, st, fr):
        out = []
        for s, (b, i) in self.eval_list([e["b"], e["i"]], st, fr):
            i = self.rv(s, i, e["i"], fr)
            if b.loc is not None:
                k = ("i", i.c) if isinstance(i.c, int) and not isinstance(i.c, bool) else "[]"
                out.append((s, Val(loc=b.loc + (k,), node=e, cls=self.rec_of(e))))
            else:
                out.append((s, Val(node=e)))
        return out

    def s_rfor(self, s, states, fr):
        out, o = [], Outcome()
        v = s["v"]
        for st in states:
            for s2, r in self.eval(s["r"], st, fr):
                n = s2.c.get(r.loc + ("#size",)) if r.loc is not None else None
                if n is None:
                    x = Interp.s_rfor(self, s, [s2], fr)
                    o.r += x.r
                    out += x.n
                    continue
                cur = [s2]
                for i in range(n):
                    el = Val(loc=r.loc + (("i", i),), node=v, cls=self.prog.type(v).get("rid"))
                    if self.prog.type(v).get("ref"):
                        fr.bind[v["d"]] = el
                    else:
                        for c in cur:
                            self.put(c, (("v", fr.id, v["d"], v["n"]),), el, v, s, fr)
                    x = self.exec(s["b"], cur, fr)
                    o.r += x.r
                    out += x.b
                    cur = self.merge(x.n + x.k)
                out += cur
        o.n = self.merge(out)
        return o
