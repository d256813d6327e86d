"""Symbolic scalars: polynomials over hash-consed atoms, and boolean formulas.

A symbolic real is a polynomial with float coefficients over *atoms*.  An atom
is an input variable or the application of a non-polynomial operation (max,
ite, 1/x, exp, sqrt, trunc, ...) to polynomials.  Python floats/ints/bools are
the constants: every operation folds when no atom is left.

NaN discipline: an atom may carry a `nan` condition (a formula saying when its
value is undefined, e.g. a zero divisor).  Comparisons are false when an
operand is undefined, exactly as in IEEE arithmetic; checks fail on undefined
values.  (inf produced by x/0 is treated as undefined as well.)
"""
import math
import time
import numbers

import numpy as np

INF = float("inf")
NAN = float("nan")


class Unsupported(BaseException):
    """the code used something the symbolic world does not model"""


class PathAbort(BaseException):
    """current path is infeasible / cut"""


class Budget(BaseException):
    pass


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "nan", "name", "isint")

    def __init__(self, id, kind, args, lo, hi, nan=False, name=None, isint=False):
        self.id = id
        self.kind = kind
        self.args = args
        self.lo = lo
        self.hi = hi
        self.nan = nan
        self.name = name
        self.isint = isint


class State:
    """per-path symbolic state"""

    def __init__(self):
        self.atoms = []
        self.table = {}
        self.buckets = {}
        self.vars = {}
        self.boolvars = {}
        self.brancher = None
        self.entails = None
        self.defs = {}
        self.floors = {}
        self.merged = {}


ST = State()
RAW = [False]     # True: comparisons are left to the solver instead of being folded by intervals


def reset_state():
    global ST
    ST = State()
    return ST


def _new_atom(kind, args, lo, hi, nan=False, name=None, isint=False):
    a = Atom(len(ST.atoms), kind, args, lo, hi, nan, name, isint)
    ST.atoms.append(a)
    return a


def var(name, lo=-INF, hi=INF, isint=False):
    if name in ST.vars:
        return poly_atom(ST.vars[name])
    a = _new_atom("var", (), lo, hi, name=name, isint=isint)
    ST.vars[name] = a
    if lo == hi:
        return float(lo)
    return poly_atom(a)


def boolvar(name):
    if name not in ST.boolvars:
        ST.boolvars[name] = SBool("bvar", (name,))
    return ST.boolvars[name]


def poly_atom(a):
    return SVal({((a.id, 1),): 1.0})


# -------------------------------------------------------------------- intervals
def imul(a, b, c, d):
    ps = []
    for x in (a, b):
        for y in (c, d):
            if x == 0 or y == 0:
                ps.append(0.0)
            else:
                ps.append(x * y)
    return min(ps), max(ps)


def ipow(lo, hi, n):
    if n == 1:
        return lo, hi
    try:
        if n % 2:
            return lo ** n, hi ** n
        if lo >= 0:
            return lo ** n, hi ** n
        if hi <= 0:
            return hi ** n, lo ** n
        return 0.0, max(lo ** n, hi ** n)
    except OverflowError:
        return (-INF if n % 2 else 0.0), INF


def mono_interval(m):
    lo, hi = 1.0, 1.0
    for aid, e in m:
        a = ST.atoms[aid]
        l, h = ipow(a.lo, a.hi, e)
        lo, hi = imul(lo, hi, l, h)
    return lo, hi


def interval(p):
    if isinstance(p, SVal):
        if p._iv is None:
            lo = hi = 0.0
            for m, c in p.t.items():
                l, h = mono_interval(m)
                l, h = imul(c, c, l, h)
                lo += l
                hi += h
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
            p._iv = (lo, hi)
        return p._iv
    if isinstance(p, SBool):
        return (0.0, 1.0)
    p = float(p)
    return (p, p)


def slack(lo, hi):
    """outward rounding of computed interval ends"""
    if lo not in (INF, -INF):
        lo = lo - 1e-12 * (1 + abs(lo))
    if hi not in (INF, -INF):
        hi = hi + 1e-12 * (1 + abs(hi))
    return lo, hi


# ------------------------------------------------------------------------- SVal
MULCAP = 1500


def is_sym(x):
    return isinstance(x, (SVal, SBool))


def num(x):
    """coerce a python/numpy scalar or SBool to float/int/SVal"""
    if isinstance(x, SVal):
        return x
    if isinstance(x, SBool):
        return x.as_val()
    if isinstance(x, (bool, np.bool_)):
        return 1.0 if x else 0.0
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if hasattr(x, "_scalar"):
        return num(x._scalar())
    if isinstance(x, np.ndarray) and x.size == 1:
        return num(x.reshape(-1)[0])
    if isinstance(x, numbers.Number):
        return float(x)
    raise Unsupported(f"not a number: {type(x)}")


def _cancel(a, b):
    s = a + b
    if abs(s) <= 1e-13 * max(abs(a), abs(b)):
        return 0.0
    return s


class SVal:
    __slots__ = ("t", "_iv", "_k")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._iv = None
        self._k = None

    # -- structure
    def const(self):
        return self.t.get((), 0.0)

    def monos(self):
        if self._k is None:
            self._k = tuple(sorted(self.t))
        return self._k

    def __hash__(self):
        return hash(self.monos())

    # -- numpy / python protocol
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import fnumpy
        return fnumpy.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import fnumpy
        return fnumpy.function_dispatch(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        from . import fnumpy
        if dtype is not None and np.dtype(dtype) != np.dtype(object):
            raise Unsupported("symbolic value forced into a native numpy array")
        r = np.empty((), dtype=object)
        r[()] = self
        return r

    def reshape(self, *s):
        from . import fnumpy
        return fnumpy.wrap(fnumpy.obj0(self)).reshape(*s)

    def ravel(self):
        return self.reshape(-1)

    def squeeze(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        from . import fnumpy
        return fnumpy.cast(self, fnumpy.dtname(dt))

    def mean(self, *a, **k):
        return self
    sum = max = min = mean

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # -- arithmetic
    def __add__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = num(o)
        if isinstance(o, SVal):
            if len(o.t) > len(self.t):
                a, b = o.t, self.t
            else:
                a, b = self.t, o.t
            t = dict(a)
            for m, c in b.items():
                if m in t:
                    s = _cancel(t[m], c)
                    if s == 0.0:
                        del t[m]
                    else:
                        t[m] = s
                else:
                    t[m] = c
            return _mk(t)
        if o == 0:
            return self
        if o != o or o in (INF, -INF):
            return o
        t = dict(self.t)
        s = _cancel(t.get((), 0.0), float(o)) if () in t else float(o)
        if s == 0.0:
            t.pop((), None)
        else:
            t[()] = s
        r = _mk(t)
        if self._iv is not None and isinstance(r, SVal):
            r._iv = (self._iv[0] + float(o), self._iv[1] + float(o))
        return r

    __radd__ = __add__

    def __neg__(self):
        r = SVal({m: -c for m, c in self.t.items()})
        if self._iv is not None:
            r._iv = (-self._iv[1], -self._iv[0])
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self + (-num(o))

    def __rsub__(self, o):
        if not _isnum(o):
            return NotImplemented
        return (-self) + num(o)

    def __mul__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = num(o)
        if not isinstance(o, SVal):
            if o == 0:
                n = nanc(self)
                return 0.0 if n is False else ite(n, NAN, 0.0)
            if o == 1:
                return self
            if o != o:
                return NAN
            if o in (INF, -INF):
                if bool(self > 0):
                    return o
                if bool(self < 0):
                    return -o
                return NAN
            o = float(o)
            r = SVal({m: c * o for m, c in self.t.items()})
            if self._iv is not None:
                l, h = imul(o, o, *self._iv)
                if l == l and h == h:
                    r._iv = (l, h)
            return r
        a, b = self, o
        if len(a.t) * len(b.t) > MULCAP:
            if len(a.t) >= len(b.t):
                a = defatom(a)
            else:
                b = defatom(b)
            if len(a.t) * len(b.t) > MULCAP:
                a, b = defatom(a), defatom(b)
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mmul(m1, m2)
                c = c1 * c2
                if m in t:
                    s = _cancel(t[m], c)
                    t[m] = s
                else:
                    t[m] = c
        sq = [m for m in t if any(e >= 2 and ST.atoms[x].kind == "sqrt" and len(ST.atoms[x].args[0].t) <= 4 for x, e in m)]
        if not sq:
            r = _mk({m: c for m, c in t.items() if c != 0.0})
            if isinstance(r, SVal) and len(a.t) > 1 and (a is b or a.t == b.t):
                # a square: bounds that its expansion does not show
                l1, h1 = interval(r)
                l2, h2 = slack(*ipow(*interval(a), 2))
                r._iv = (max(l1, l2, 0.0), min(h1, h2))
            return r
        # sqrt(p)^2 = p (p >= 0 wherever the square root is defined)
        r = _mk({m: c for m, c in t.items() if c != 0.0 and m not in sq})
        for m in sq:
            if t[m] == 0.0:
                continue
            x = t[m]
            for aid, e in m:
                at = ST.atoms[aid]
                if at.kind == "sqrt" and e >= 2 and len(at.args[0].t) <= 4:
                    for _ in range(e // 2):
                        x = x * at.args[0]
                    e = e % 2
                if e:
                    x = x * SVal({((aid, e),): 1.0})
            r = r + x
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return sdiv(o, self)

    def __floordiv__(self, o):
        return sfloor(sdiv(self, num(o)))

    def __rfloordiv__(self, o):
        return sfloor(sdiv(num(o), self))

    def __mod__(self, o):
        o = num(o)
        return self - o * sfloor(sdiv(self, o))

    def __rmod__(self, o):
        o = num(o)
        return o - self * sfloor(sdiv(o, self))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if not _isnum(o):
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    def __abs__(self):
        return smax(self, -self)

    # -- comparisons
    def __lt__(self, o):
        return cmp_("lt", self, o)

    def __le__(self, o):
        return cmp_("le", self, o)

    def __gt__(self, o):
        return cmp_("gt", self, o)

    def __ge__(self, o):
        return cmp_("ge", self, o)

    def __eq__(self, o):
        return cmp_("eq", self, o)

    def __ne__(self, o):
        return cmp_("ne", self, o)

    def __bool__(self):
        return bool(cmp_("ne", self, 0.0))

    def __int__(self):
        return concretize_int(strunc(self))

    def __index__(self):
        return concretize_int(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __round__(self, n=None):
        if n:
            return sround(self * 10.0 ** n) * 10.0 ** -n
        return sround(self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __trunc__(self):
        return strunc(self)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym " + show(self, 6) + ">"

    # used when object arrays hit native ufuncs
    def exp(self):
        return sexp(self)

    def sqrt(self):
        return ssqrt(self)

    def conjugate(self):
        return self


def _isnum(o):
    if isinstance(o, (SVal, SBool, int, float, np.number, np.bool_)):
        return True
    return False


def _mk(t):
    if not t:
        return 0.0
    if len(t) == 1 and () in t:
        return t[()]
    return SVal(t)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            # indicators are idempotent
            if ST.atoms[a].kind != "ind":
                d[a] += e
        else:
            d[a] = e
    for a in list(d):
        at = ST.atoms[a]
        if at.kind == "inv" and at.nan is False and a in d:
            t = at.args[0].t                # x * 1/x, for a single x known to be non-zero
            if len(t) == 1:
                (mm, c), = t.items()
                if c == 1.0 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in d:
                    b = mm[0][0]
                    k = min(d[a], d[b])
                    for x in (a, b):
                        d[x] -= k
                        if d[x] == 0:
                            del d[x]
    return tuple(sorted(d.items()))


def indicator(c):
    """1 where c holds, else 0"""
    return poly_atom(get_atom("ind", (c,), lambda: (0.0, 1.0, False, True)))


def same_poly(p, q, rtol=1e-9):
    if p.t.keys() != q.t.keys():
        return False
    for m, c in p.t.items():
        d = q.t[m]
        if c != d and abs(c - d) > rtol * max(abs(c), abs(d)):
            return False
    return True


def same(a, b):
    if isinstance(a, SVal) and isinstance(b, SVal):
        return same_poly(a, b)
    if isinstance(a, SBool) or isinstance(b, SBool):
        return isinstance(a, SBool) and isinstance(b, SBool) and bkey(a) == bkey(b)
    if isinstance(a, SVal) or isinstance(b, SVal):
        return False
    return a == b or (a != a and b != b) or \
        abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def get_atom(kind, args, mk):
    """hash-consed function application; args: SVal / float / SBool"""
    k = (kind,) + tuple(
        a.monos() if isinstance(a, SVal) else
        (("b", bkey(a)) if isinstance(a, SBool) else "c")
        for a in args)
    bucket = ST.buckets.setdefault(k, [])
    for a in bucket:
        if all(same(x, y) for x, y in zip(a.args, args)):
            return a
    lo, hi, nan, isint = mk()
    a = _new_atom(kind, tuple(args), lo, hi, nan, isint=isint)
    bucket.append(a)
    return a


def defatom(p):
    def mk():
        lo, hi = slack(*interval(p))
        return lo, hi, nanc(p), False
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1.0:
            return p
    return poly_atom(get_atom("def", (p,), mk))


def nanc(p):
    """condition under which p is undefined (False or SBool)"""
    if isinstance(p, SVal):
        r = False
        seen = set()
        for m in p.t:
            for aid, _ in m:
                if aid in seen:
                    continue
                seen.add(aid)
                n = ST.atoms[aid].nan
                if n is not False:
                    r = bor(r, n)
        return r
    if isinstance(p, SBool):
        return False
    return bool(p != p)


def has_def(p):
    """does a term named to keep products small occur in p, at any depth"""
    seen = ST.defs

    def at(aid):
        if aid not in seen:
            a = ST.atoms[aid]
            seen[aid] = False
            seen[aid] = a.kind == "def" or any(has(x) for x in a.args if isinstance(x, SVal))
        return seen[aid]

    def has(q):
        return any(at(aid) for m in q.t for aid, _ in m)
    return has(p)


class Budget(Exception):
    pass


def expand(p, memo, end, cap=60000):
    """p with the names given to large terms resolved again, at any depth (so that equal values reached along differently
    factored expressions meet in one normal form); raises Budget when that takes too long or grows too large"""
    global MULCAP
    if not isinstance(p, SVal):
        return p

    def atom(aid):
        if aid in memo:
            return memo[aid]
        if time.time() > end:
            raise Budget()
        a = ST.atoms[aid]
        v = poly_atom(a)
        if a.kind == "def":
            v = poly(a.args[0])
        elif a.kind in REBUILD:
            xs = [poly(x) if isinstance(x, SVal) else x for x in a.args]
            if any(isinstance(x, SVal) and y.t is not x.t for x, y in zip(a.args, xs) if isinstance(y, SVal)) or \
                    any(isinstance(x, SVal) and not isinstance(y, SVal) for x, y in zip(a.args, xs)):
                if a.kind == "iten":
                    memo[aid] = v
                    return v
                v = REBUILD[a.kind](*xs)
        memo[aid] = v
        return v

    def poly(q):
        ids = {aid for m in q.t for aid, _ in m}
        new = {aid: atom(aid) for aid in ids}
        ch = {aid for aid, v in new.items() if not (isinstance(v, SVal) and v.t.keys() == {((aid, 1),)} and v.t[((aid, 1),)] == 1.0)}
        if not ch:
            return q
        acc = {m: c for m, c in q.t.items() if not any(aid in ch for aid, _ in m)}
        r = _mk(acc)
        for m, c in q.t.items():
            if m in acc:
                continue
            x = SVal({tuple(f for f in m if f[0] not in ch): c}) if any(f[0] not in ch for f in m) else c
            for aid, e in m:
                if aid in ch:
                    for _ in range(e):
                        x = x * new[aid] if isinstance(x, SVal) else new[aid] * x
                        if isinstance(x, SVal) and len(x.t) > cap or time.time() > end:
                            raise Budget()
            r = r + x
        return r
    old = MULCAP
    MULCAP = 50 * cap
    try:
        return poly(p)
    finally:
        MULCAP = old


# ---------------------------------------------------------------------- operations
def lead_sign(p):
    m = min(p.t, key=lambda m: (m == (), m))
    return p.t[m]


def smax(a, b):
    a, b = num(a), num(b)
    if not isinstance(a, SVal) and not isinstance(b, SVal):
        if a != a or b != b:
            return NAN
        return max(a, b)
    if a is b:
        return a
    d = a - b
    na, nb = nanc(a), nanc(b)
    if na is False and nb is False:
        if not isinstance(d, SVal):
            if d != d:
                return NAN
            return a if d >= 0 else b
        lo, hi = interval(d)
        if lo >= 0:
            return a
        if hi <= 0:
            return b
        alo, ahi = interval(a)
        blo, bhi = interval(b)
        if alo >= bhi:
            return a
        if blo >= ahi:
            return b
    elif not isinstance(d, SVal) and d != d:
        return NAN
    if isinstance(d, SVal) and lead_sign(d) < 0:
        a, b = b, a

    def mk():
        alo, ahi = interval(a)
        blo, bhi = interval(b)
        return max(alo, blo), max(ahi, bhi), bor(nanc(a), nanc(b)), False
    return poly_atom(get_atom("max", (a, b), mk))


def smin(a, b):
    a, b = num(a), num(b)
    if not isinstance(a, SVal) and not isinstance(b, SVal):
        if a != a or b != b:
            return NAN
        return min(a, b)
    return -smax(-a, -b)


def smax_all(xs):
    """maximum of many values, independent of their order"""
    xs = [num(x) for x in xs]
    leaves, seen, const = [], set(), None

    def put(x):
        nonlocal const
        if not isinstance(x, SVal):
            if x != x:
                const = x if const is None else NAN
            else:
                const = x if const is None else max(const, x)
            return
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1.0 and len(m) == 1 and m[0][1] == 1 and ST.atoms[m[0][0]].kind == "max":
                for y in ST.atoms[m[0][0]].args:
                    put(y)
                return
        k = pkey(x)
        if k not in seen:
            seen.add(k)
            leaves.append((k, x))
    for x in xs:
        put(x)
    leaves.sort(key=lambda kx: kx[0])
    r = const
    for _, x in leaves:
        r = x if r is None else smax(r, x)
    return r


def smin_all(xs):
    return -smax_all([-num(x) for x in xs])


def sclamp(x, lo=None, hi=None):
    if lo is not None:
        x = smax(x, lo)
    if hi is not None:
        x = smin(x, hi)
    return x


def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return bor(band(c, a), band(bnot(c), b))
    a, b = num(a), num(b)
    if same(a, b):
        return a
    fa = isinstance(a, SVal) or math.isfinite(a)
    fb = isinstance(b, SVal) or math.isfinite(b)
    nan = bor(band(c, nanc(a) if fa else True), band(bnot(c), nanc(b) if fb else True))
    if not fa and not fb:
        return NAN
    a2 = a if fa else 0.0
    b2 = b if fb else 0.0
    if isinstance(c, SBool) and c.op == "not":
        c, a2, b2 = c.args[0], b2, a2

    if nan is False:
        sa, sb = isinstance(a2, SVal), isinstance(b2, SVal)
        if not sb and b2 == 0 and (not sa or len(a2.t) <= 4):
            return indicator(c) * a2
        if not sa and a2 == 0 and (not sb or len(b2.t) <= 4):
            return indicator(bnot(c)) * b2
        if not sa and not sb:
            return b2 + indicator(c) * (a2 - b2)

    def mk():
        alo, ahi = interval(a2)
        blo, bhi = interval(b2)
        return min(alo, blo), max(ahi, bhi), nan, False
    kind = "ite"
    if nan is not False:
        a = get_atom("iten", (c, a2, b2, nan if isinstance(nan, SBool) else 1.0), mk)
        return poly_atom(a)
    return poly_atom(get_atom(kind, (c, a2, b2), mk))


def sdiv(a, b):
    a, b = num(a), num(b)
    if not isinstance(b, SVal):
        b = float(b)
        if b == 0.0:
            if isinstance(a, SVal):
                if bool(a > 0):
                    return INF
                if bool(a < 0):
                    return -INF
                return NAN
            if a != a or a == 0:
                return NAN
            return math.copysign(INF, a) * math.copysign(1.0, b)
        if isinstance(a, SVal):
            if not math.isfinite(b):
                return 0.0 if b == b else NAN
            r = SVal({m: c / b for m, c in a.t.items()})
            if a._iv is not None:
                l, h = sorted((a._iv[0] / b, a._iv[1] / b))
                r._iv = (l, h)
            return r
        try:
            return float(a) / b
        except OverflowError:
            return INF
    if not isinstance(a, SVal):
        if a == 0 and _nonzero(b):
            return 0.0
        if not math.isfinite(a):
            return NAN if a != a else (a if bool(b > 0) else -a)
    # a/b where a is a multiple of b
    if isinstance(a, SVal) and a.t.keys() == b.t.keys() and _nonzero(b):
        rs = [a.t[m] / b.t[m] for m in a.t]
        if max(rs) - min(rs) <= 1e-13 * abs(rs[0]):
            return rs[0]
    return a * sinv(b)


def _nonzero(b):
    lo, hi = interval(b)
    return (lo > 0 or hi < 0) and nanc(b) is False


def sinv(b):
    # normalise by the leading coefficient
    c = lead_sign(b)
    q = b if c == 1.0 else SVal({m: v / c for m, v in b.t.items()})
    if len(q.t) == 1:
        (m, _), = q.t.items()
        # 1/(x^k y^l) -> product of inverses of atoms; 1/inv(p) -> p
        r = 1.0 / c
        for aid, e in m:
            at = ST.atoms[aid]
            if at.kind == "inv" and at.nan is False:
                f = at.args[0]
            elif at.kind == "exp":
                f = sexp(-at.args[0])
            else:
                f = _inv_atom(poly_atom(at))
            r = r * spow(f, e)
        return r
    if len(q.t) == 2 and q.t.get(()) == 1.0:
        # logistic function: 1/(1+exp(-p)) = 1 - 1/(1+exp(p)), one of the two is used
        (m, k), = [x for x in q.t.items() if x[0]]
        if k == 1.0 and len(m) == 1 and m[0][1] == 1:
            at = ST.atoms[m[0][0]]
            if at.kind == "exp" and at.nan is False and lead_sign(at.args[0]) < 0:
                r = 1.0 - _inv_atom(1.0 + sexp(-at.args[0]))
                if isinstance(r, SVal):
                    l, h = slack(*interval(_inv_atom(q)))
                    r._iv = (l, h)
                return r * (1.0 / c)
    return _inv_atom(q) * (1.0 / c)


def _inv_atom(q):
    def mk():
        lo, hi = interval(q)
        nan = nanc(q)
        if lo > 0 or hi < 0:
            l = 1.0 / hi if hi not in (INF, -INF) else 0.0
            h = 1.0 / lo if lo not in (INF, -INF) else 0.0
            l, h = min(l, h), max(l, h)
            l, h = slack(l, h)
        else:
            nan = bor(nan, cmp_("eq", q, 0.0))
            l, h = -INF, INF
            if lo >= 0:
                l = 1.0 / hi if hi != INF else 0.0
                l, _ = slack(l, l)
            elif hi <= 0:
                h = 1.0 / lo if lo != -INF else 0.0
                _, h = slack(h, h)
        return l, h, nan, False
    return poly_atom(get_atom("inv", (q,), mk))


def spow(a, b):
    a, b = num(a), num(b)
    if not isinstance(a, SVal) and not isinstance(b, SVal):
        try:
            r = a ** b
            if isinstance(r, complex):
                return NAN
            return r
        except ZeroDivisionError:
            return INF
        except OverflowError:
            return INF
    if not isinstance(b, SVal):
        if float(b).is_integer():
            n = int(b)
            if n == 0:
                return 1.0
            if n < 0:
                return sdiv(1.0, spow(a, -n))
            if n <= 16:
                r = a
                for _ in range(n - 1):
                    r = r * a
                return r
        if b == 0.5:
            return ssqrt(a)
        if b == -0.5:
            return sdiv(1.0, ssqrt(a))
        return sexp(slog(a) * float(b))
    if isinstance(a, SVal):
        return sexp(slog(a) * b)
    if a <= 0:
        raise Unsupported("nonpositive constant to a symbolic power")
    return sexp(b * math.log(a))


def _mexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def sexp(p):
    p = num(p)
    if not isinstance(p, SVal):
        return _mexp(p) if p == p else NAN

    def mk():
        lo, hi = interval(p)
        l = 0.0 if lo == -INF else _mexp(lo)
        h = INF if hi == INF else _mexp(hi)
        l, h = slack(l, h)
        return max(l, 0.0), h, nanc(p), False
    return poly_atom(get_atom("exp", (p,), mk))


def slog(p):
    p = num(p)
    if not isinstance(p, SVal):
        if p != p or p < 0:
            return NAN
        return math.log(p) if p > 0 else -INF

    def mk():
        lo, hi = interval(p)
        nan = nanc(p)
        if lo <= 0:
            nan = bor(nan, cmp_("le", p, 0.0))
        l = math.log(lo) if lo > 0 else -INF
        h = (math.log(hi) if hi != INF else INF) if hi > 0 else 0.0
        l, h = slack(l, h)
        return l, h, nan, False
    return poly_atom(get_atom("log", (p,), mk))


def slog2(p):
    p = num(p)
    if not isinstance(p, SVal):
        if p != p or p < 0:
            return NAN
        return math.log2(p) if p > 0 else -INF
    return slog(p) * (1.0 / math.log(2.0))


def slog10(p):
    p = num(p)
    if not isinstance(p, SVal):
        return slog(p) / math.log(10.0)
    return slog(p) * (1.0 / math.log(10.0))


def ssqrt(p):
    p = num(p)
    if not isinstance(p, SVal):
        if p != p or p < 0:
            return NAN
        return math.sqrt(p)
    # sqrt of an even monomial
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and m and all(e % 2 == 0 for _, e in m):
            return abs(SVal({tuple((a, e // 2) for a, e in m): math.sqrt(c)}))

    def mk():
        lo, hi = interval(p)
        nan = nanc(p)
        if lo < 0:
            nan = bor(nan, cmp_("lt", p, 0.0))
        l = math.sqrt(lo) if lo > 0 else 0.0
        h = math.sqrt(hi) if hi != INF and hi > 0 else (INF if hi == INF else 0.0)
        l, h = slack(l, h)
        return max(l, 0.0), h, nan, False
    return poly_atom(get_atom("sqrt", (p,), mk))


def _fn(kind, f, rng):
    def g(p):
        p = num(p)
        if not isinstance(p, SVal):
            return f(p) if math.isfinite(p) else (NAN if p != p or kind in ("sin", "cos") else f(p))

        def mk():
            lo, hi = rng(*interval(p))
            lo, hi = slack(lo, hi)
            return lo, hi, nanc(p), False
        return poly_atom(get_atom(kind, (p,), mk))
    return g


ssin = _fn("sin", math.sin, lambda l, h: (-1.0, 1.0))
scos = _fn("cos", math.cos, lambda l, h: (-1.0, 1.0))
stanh = _fn("tanh", math.tanh, lambda l, h: (math.tanh(l), math.tanh(h)))
satan = _fn("atan", math.atan, lambda l, h: (math.atan(l), math.atan(h)))


def ssigmoid(p):
    p = num(p)
    if not isinstance(p, SVal):
        if p != p:
            return NAN
        return 1.0 / (1.0 + _mexp(-p))
    return sdiv(1.0, 1.0 + sexp(-p))


def sfloor(p):
    p = num(p)
    if not isinstance(p, SVal):
        return float(math.floor(p)) if math.isfinite(p) else p
    if is_intval(p):
        return p

    def mk():
        lo, hi = interval(p)
        return (math.floor(lo) if lo != -INF else lo), (math.floor(hi) if hi != INF else hi), nanc(p), True
    n = len(ST.atoms)
    a = get_atom("floor", (p,), mk)
    if a.id in ST.merged:
        return ST.merged[a.id]
    r = poly_atom(a)
    if a.id == n and ST.entails is not None and a.nan is False:
        # almost the same argument as an earlier floor: one atom if the path says they agree
        for b in ST.floors.get(p.monos(), ())[:4]:
            q = b.args[0]
            if b.nan is False and all(abs(c - q.t[m]) <= 1e-6 * (1 + abs(c)) for m, c in p.t.items()):
                other = poly_atom(b)
                if ST.entails(cmp_("eq", r, other)):
                    ST.merged[a.id] = other
                    return other
        ST.floors.setdefault(p.monos(), []).append(a)
    return r


REBUILD = {"exp": sexp, "log": slog, "sqrt": ssqrt, "sin": ssin, "cos": scos, "tanh": stanh, "atan": satan, "floor": sfloor,
           "inv": lambda q: sinv(q) if isinstance(q, SVal) else sdiv(1.0, q), "max": smax, "ite": ite}


def is_intval(p):
    if not isinstance(p, SVal):
        return float(p).is_integer() if math.isfinite(p) else False
    for m, c in p.t.items():
        if c != int(c) if math.isfinite(c) else True:
            return False
        for aid, _ in m:
            if not ST.atoms[aid].isint:
                return False
    return True


def strunc(p):
    p = num(p)
    if not isinstance(p, SVal):
        return float(math.trunc(p)) if math.isfinite(p) else p
    if is_intval(p):
        return p
    lo, hi = interval(p)
    if lo >= 0:
        return sfloor(p)
    if hi <= 0:
        return -sfloor(-p)
    return ite(p >= 0, sfloor(p), -sfloor(-p))


def sround(p):
    """round half to even (torch/numpy)"""
    p = num(p)
    if not isinstance(p, SVal):
        return float(round(p)) if math.isfinite(p) else p
    if is_intval(p):
        return p
    f = sfloor(p + 0.5)
    # tie: p+0.5 == f ; even neighbour
    half = cmp_("eq", p + 0.5, f)
    odd = cmp_("ne", f - 2.0 * sfloor(f * 0.5), 0.0)
    return ite(band(half, odd), f - 1.0, f)


def ssign(p):
    p = num(p)
    if not isinstance(p, SVal):
        return float((p > 0) - (p < 0))
    return ite(p > 0, 1.0, ite(p < 0, -1.0, 0.0))


# ------------------------------------------------------------------------ booleans
class SBool:
    __slots__ = ("op", "args", "_key")
    __array_priority__ = 1000
    shape = ()
    ndim = 0

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._key = None

    def as_val(self):
        return ite(self, 1.0, 0.0)

    def item(self):
        return self

    def __bool__(self):
        if ST.brancher is None:
            raise Unsupported("branch on a symbolic value outside exploration")
        return ST.brancher(self)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bnot(biff(self, o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return biff(self, o)
        if isinstance(o, (int, float, SVal, np.number)):
            return cmp_("eq", self.as_val(), o)
        return False

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __hash__(self):
        return hash(bkey(self))

    def __add__(self, o):
        return self.as_val() + num(o) if _isnum(o) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_val() - num(o) if _isnum(o) else NotImplemented

    def __rsub__(self, o):
        return num(o) - self.as_val() if _isnum(o) else NotImplemented

    def __mul__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = num(o)
        if isinstance(o, SVal) and nanc(o) is not False:
            return ite(self, o, o * 0.0)
        return ite(self, o, 0.0)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return sdiv(self.as_val(), num(o)) if _isnum(o) else NotImplemented

    def __rtruediv__(self, o):
        return sdiv(num(o), self.as_val()) if _isnum(o) else NotImplemented

    def __neg__(self):
        return -self.as_val()

    def __abs__(self):
        return self.as_val()

    def __pow__(self, o):
        return spow(self.as_val(), o)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __lt__(self, o):
        return cmp_("lt", self, o)

    def __le__(self, o):
        return cmp_("le", self, o)

    def __gt__(self, o):
        return cmp_("gt", self, o)

    def __ge__(self, o):
        return cmp_("ge", self, o)

    def __format__(self, spec):
        return "<symbool>"

    def __repr__(self):
        return "<symbool>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import fnumpy
        return fnumpy.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype) != np.dtype(object):
            raise Unsupported("symbolic bool forced into a native numpy array")
        r = np.empty((), dtype=object)
        r[()] = self
        return r


def pkey(p):
    if isinstance(p, SVal):
        return tuple((m, float("%.10g" % p.t[m])) for m in p.monos())
    return float(p)


def bkey(b):
    if not isinstance(b, SBool):
        return bool(b)
    if b._key is None:
        if b.op in ("lt0", "le0", "eq0"):
            b._key = (b.op, pkey(b.args[0]))
        elif b.op == "bvar":
            b._key = (b.op, b.args[0])
        else:
            ks = [bkey(x) for x in b.args]
            if b.op in ("and", "or"):
                ks = sorted(set(map(repr, ks)))
            k = (b.op, tuple(ks))
            # intern: keep keys short
            tab = ST.table
            if k not in tab:
                tab[k] = ("#", len(tab))
            b._key = tab[k]
    return b._key


def bnot(a):
    if not isinstance(a, SBool):
        return not a
    if a.op == "not":
        return a.args[0]
    return SBool("not", (a,))


def band(a, b):
    if not isinstance(a, SBool):
        if not a:
            return False
        return b if isinstance(b, SBool) else bool(b)
    if not isinstance(b, SBool):
        return a if b else False
    if a is b or bkey(a) == bkey(b):
        return a
    if bkey(bnot(a)) == bkey(b):
        return False
    return SBool("and", (a, b))


def bor(a, b):
    if not isinstance(a, SBool):
        if a:
            return True
        return b if isinstance(b, SBool) else bool(b)
    if not isinstance(b, SBool):
        return True if b else a
    if a is b or bkey(a) == bkey(b):
        return a
    if bkey(bnot(a)) == bkey(b):
        return True
    return SBool("or", (a, b))


def ball(xs):
    xs = [x for x in xs]
    out = []
    seen = set()
    for x in xs:
        if not isinstance(x, SBool):
            if not x:
                return False
            continue
        k = bkey(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SBool("and", tuple(out))


def bany(xs):
    return bnot(ball([bnot(x) for x in xs]))


def biff(a, b):
    if not isinstance(a, SBool) and not isinstance(b, SBool):
        return bool(a) == bool(b)
    if not isinstance(a, SBool):
        return b if a else bnot(b)
    if not isinstance(b, SBool):
        return a if b else bnot(a)
    if bkey(a) == bkey(b):
        return True
    return SBool("iff", (a, b))


def cmp_(op, a, b):
    try:
        a, b = num(a), num(b)
    except Unsupported:
        if op == "eq":
            return False
        if op == "ne":
            return True
        raise
    sa, sb = isinstance(a, SVal), isinstance(b, SVal)
    if not sa and not sb:
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
                "eq": a == b, "ne": a != b}[op]
    if op == "gt":
        return cmp_("lt", b, a)
    if op == "ge":
        return cmp_("le", b, a)
    if op == "ne":
        return bnot(cmp_("eq", a, b))
    for x, other, left in ((a, b, True), (b, a, False)):
        if not isinstance(x, SVal) and not math.isfinite(x):
            n = nanc(other)
            if x != x or op == "eq":
                return False
            # x = +-inf ; lt/le
            r = (x < 0) if left else (x > 0)
            return band(bnot(n), r)
    nan = bor(nanc(a), nanc(b))
    d = a - b
    if not isinstance(d, SVal):
        r = {"lt": d < 0, "le": d <= 0, "eq": d == 0}[op]
        return band(bnot(nan), r)
    if len(d.t) <= 2 and nan is False:
        # k * indicator + const
        ms = [m for m in d.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ST.atoms[ms[0][0][0]].kind == "ind":
            c0 = d.t.get((), 0.0)
            c1 = c0 + d.t[ms[0]]
            f = {"lt": lambda x: x < 0, "le": lambda x: x <= 0, "eq": lambda x: x == 0}[op]
            cc = ST.atoms[ms[0][0][0]].args[0]
            return bor(band(cc, f(c1)), band(bnot(cc), f(c0)))
    if nan is False and len(d.t) <= 12:
        # p0 + I(c) * p1: decide each side of c, keep the split when one side folds
        ind = None
        for m in d.t:
            for aid, _ in m:
                if ST.atoms[aid].kind == "ind" and (ind is None or aid < ind):
                    ind = aid
        if ind is not None:
            with_, without = {}, {}
            for m, c in d.t.items():
                if any(aid == ind for aid, _ in m):
                    m2 = tuple(x for x in m if x[0] != ind)
                    with_[m2] = with_.get(m2, 0.0) + c
                else:
                    without[m] = without.get(m, 0.0) + c
            full = dict(without)
            for m, c in with_.items():
                full[m] = full.get(m, 0.0) + c
            cc = ST.atoms[ind].args[0]
            r1 = cmp_(op, _mk({m: c for m, c in full.items() if c != 0}), 0.0)
            r0 = cmp_(op, _mk(without), 0.0)
            if not isinstance(r1, SBool) or not isinstance(r0, SBool):
                return bor(band(cc, r1), band(bnot(cc), r0))
    lo, hi = (-INF, INF) if RAW[0] else interval(d)
    r = None
    # intervals of computed (inexact) expressions are only trusted with slack
    if op == "lt":
        if hi < 0:
            r = True
        elif lo >= 0:
            r = False
    elif op == "le":
        if hi <= 0:
            r = True
        elif lo > 0:
            r = False
    else:
        if lo > 0 or hi < 0:
            r = False
    if r is None:
        if op == "eq":
            if lead_sign(d) < 0:
                d = -d
        r = SBool({"lt": "lt0", "le": "le0", "eq": "eq0"}[op], (d,))
    return band(bnot(nan), r)


def concretize_int(p):
    if not isinstance(p, SVal):
        return int(p)
    if ST.brancher is None:
        raise Unsupported("int() of a symbolic value")
    return ST.concretizer(p)


# ------------------------------------------------------------------ numeric evaluation
class Eval:
    """numeric (IEEE double) evaluation under an assignment of input variables"""

    def __init__(self, env, benv=None, st=None):
        self.env = env
        self.benv = benv or {}
        self.st = st or ST
        self.c = {}

    def p(self, p):
        if isinstance(p, SBool):
            return 1.0 if self.b(p) else 0.0
        if not isinstance(p, SVal):
            return float(p)
        s = 0.0
        for m, c in p.t.items():
            v = c
            for aid, e in m:
                x = self.atom(aid)
                try:
                    v *= x ** e
                except OverflowError:
                    v *= INF
            s += v
        return s

    def atom(self, aid):
        if aid in self.c:
            return self.c[aid]
        # iterative for depth safety is unnecessary: recursion limit raised
        a = self.st.atoms[aid]
        k = a.kind
        if k == "var":
            r = self.env.get(a.name)
            if r is None:
                lo = a.lo if a.lo != -INF else (a.hi - 1 if a.hi != INF else 0.0)
                hi = a.hi if a.hi != INF else lo + 1
                r = min(max(0.0, lo), hi)
            r = float(r)
        elif k == "max":
            x, y = self.p(a.args[0]), self.p(a.args[1])
            r = NAN if (x != x or y != y) else max(x, y)
        elif k in ("ite", "iten"):
            if self.b(a.args[0]):
                r = self.p(a.args[1])
            else:
                r = self.p(a.args[2])
            if k == "iten" and (self.b(a.args[3]) if isinstance(a.args[3], SBool) else True):
                r = NAN
        elif k == "ind":
            r = 1.0 if self.b(a.args[0]) else 0.0
        elif k == "inv":
            r = sdiv(1.0, self.p(a.args[0]))
        elif k == "def":
            r = self.p(a.args[0])
        elif k == "floor":
            r = sfloor(self.p(a.args[0]))
        else:
            x = self.p(a.args[0])
            r = {"exp": sexp, "log": slog, "sqrt": ssqrt, "sin": ssin, "cos": scos,
                 "tanh": stanh, "atan": satan}[k](x)
        self.c[aid] = r
        return r

    def b(self, b):
        if not isinstance(b, SBool):
            return bool(b)
        o = b.op
        if o == "lt0":
            return self.p(b.args[0]) < 0
        if o == "le0":
            return self.p(b.args[0]) <= 0
        if o == "eq0":
            return abs(self.p(b.args[0])) <= 1e-12
        if o == "and":
            return all(self.b(x) for x in b.args)
        if o == "or":
            return any(self.b(x) for x in b.args)
        if o == "not":
            return not self.b(b.args[0])
        if o == "iff":
            return self.b(b.args[0]) == self.b(b.args[1])
        if o == "bvar":
            return bool(self.benv.get(b.args[0], False))
        raise Unsupported(o)


def show(p, n=20):
    if isinstance(p, SBool):
        return f"({p.op} " + " ".join(show(x, n) for x in p.args) + ")" if p.op != "bvar" else p.args[0]
    if not isinstance(p, SVal):
        return repr(p)
    out = []
    for m, c in list(p.t.items())[:n]:
        s = "%.6g" % c
        for aid, e in m:
            a = ST.atoms[aid]
            nm = a.name or f"{a.kind}{aid}"
            s += f"*{nm}" + (f"^{e}" if e > 1 else "")
        out.append(s)
    if len(p.t) > n:
        out.append("...")
    return " + ".join(out)
