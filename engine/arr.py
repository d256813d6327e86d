"""Object-array primitives shared by the fake numpy and the fake torch."""
import math

import numpy as np

from . import sym
from .sym import SVal, SBool, num, ite, Unsupported


def obj(shape, fill=0.0):
    a = np.empty(shape, dtype=object)
    a[...] = fill
    return a


def from_flat(flat, shape):
    a = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        a[i] = v
    return a.reshape(shape)


def has_sym(a):
    if isinstance(a, (SVal, SBool)):
        return True
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        for v in a.reshape(-1):
            if isinstance(v, (SVal, SBool)):
                return True
    return False


def ufn(f, n):
    g = np.frompyfunc(f, n, 1)

    def h(*xs):
        r = g(*[np.asarray(x) if isinstance(x, np.ndarray) else _box(x) for x in xs])
        if not isinstance(r, np.ndarray):
            return _box(r)
        return r
    return h


def _box(x):
    if isinstance(x, np.generic):
        x = x.item()
    r = np.empty((), dtype=object)
    r[()] = x
    return r


# scalar kernels ----------------------------------------------------------------
def b2n(x):
    if isinstance(x, SBool):
        return x.as_val()
    if isinstance(x, (bool, np.bool_)):
        return 1 if x else 0
    return x


def isb(x):
    return isinstance(x, (bool, np.bool_, SBool))


def s_add(a, b):
    if isb(a) and isb(b):
        return sym.bor(a, b)
    return b2n(a) + b2n(b)


def s_sub(a, b):
    return b2n(a) - b2n(b)


def s_mul(a, b):
    if isb(a):
        if isb(b):
            return sym.band(a, b)
        if isinstance(a, SBool):
            return a * b
    elif isinstance(b, SBool):
        return b * a
    return b2n(a) * b2n(b)


def s_floordiv(a, b):
    a, b = b2n(a), b2n(b)
    if isinstance(a, SVal) or isinstance(b, SVal):
        return sym.sfloor(sym.sdiv(a, b))
    if b == 0:
        return sym.sdiv(a, b)
    return a // b


def s_mod(a, b):
    a, b = b2n(a), b2n(b)
    if isinstance(a, SVal) or isinstance(b, SVal):
        return a - b * sym.sfloor(sym.sdiv(a, b))
    if b == 0:
        return sym.NAN
    return a % b


def s_neg(a):
    return -b2n(a)


def s_abs(a):
    return abs(b2n(a))


def s_isnan(a):
    return sym.nanc(b2n(a)) if not isb(a) else False


def s_isfinite(a):
    if isb(a):
        return True
    a = b2n(a)
    if isinstance(a, SVal):
        return sym.bnot(sym.nanc(a))
    return math.isfinite(a)


def s_isinf(a):
    if isb(a) or isinstance(a, SVal):
        return False
    return math.isinf(a)


def truth(a):
    if isb(a):
        return a
    return sym.cmp_("ne", b2n(a), 0.0)


def s_and(a, b):
    return sym.band(truth(a), truth(b))


def s_or(a, b):
    return sym.bor(truth(a), truth(b))


def s_not(a):
    return sym.bnot(truth(a))


def s_xor(a, b):
    return sym.bnot(sym.biff(truth(a), truth(b)))


def s_bitand(a, b):
    if isb(a) and isb(b):
        return sym.band(a, b)
    return int(b2n(a)) & int(b2n(b))


def s_bitor(a, b):
    if isb(a) and isb(b):
        return sym.bor(a, b)
    return int(b2n(a)) | int(b2n(b))


def s_bitxor(a, b):
    if isb(a) and isb(b):
        return s_xor(a, b)
    return int(b2n(a)) ^ int(b2n(b))


def s_inv(a):
    if isb(a):
        return sym.bnot(a)
    return ~int(a)


def s_eq(a, b):
    if isb(a) and isb(b):
        return sym.biff(a, b)
    return sym.cmp_("eq", a, b)


def _c(op):
    return lambda a, b: sym.cmp_(op, a, b)


ADD = ufn(s_add, 2)
SUB = ufn(s_sub, 2)
MUL = ufn(s_mul, 2)
DIV = ufn(lambda a, b: sym.sdiv(b2n(a), b2n(b)), 2)
FDIV = ufn(s_floordiv, 2)
MOD = ufn(s_mod, 2)
FMOD = ufn(lambda a, b: b2n(a) - b2n(b) * sym.strunc(sym.sdiv(b2n(a), b2n(b))), 2)
POW = ufn(lambda a, b: sym.spow(a, b), 2)
NEG = ufn(s_neg, 1)
ABS = ufn(s_abs, 1)
MAX2 = ufn(lambda a, b: sym.smax(a, b), 2)
MIN2 = ufn(lambda a, b: sym.smin(a, b), 2)
LT = ufn(_c("lt"), 2)
LE = ufn(_c("le"), 2)
GT = ufn(_c("gt"), 2)
GE = ufn(_c("ge"), 2)
EQ = ufn(s_eq, 2)
NE = ufn(lambda a, b: sym.bnot(s_eq(a, b)), 2)
AND = ufn(s_and, 2)
OR = ufn(s_or, 2)
NOT = ufn(s_not, 1)
XOR = ufn(s_xor, 2)
BAND = ufn(s_bitand, 2)
BOR = ufn(s_bitor, 2)
BXOR = ufn(s_bitxor, 2)
BINV = ufn(s_inv, 1)
WHERE = ufn(lambda c, a, b: ite(truth(c), a, b), 3)
EXP = ufn(sym.sexp, 1)
LOG = ufn(sym.slog, 1)
LOG2 = ufn(sym.slog2, 1)
LOG10 = ufn(sym.slog10, 1)
LOG1P = ufn(lambda a: sym.slog(1 + num(a)), 1)
EXPM1 = ufn(lambda a: sym.sexp(a) - 1, 1)
SQRT = ufn(sym.ssqrt, 1)
SQUARE = ufn(lambda a: b2n(a) * b2n(a), 1)
SIN = ufn(sym.ssin, 1)
COS = ufn(sym.scos, 1)
TAN = ufn(lambda a: sym.sdiv(sym.ssin(a), sym.scos(a)), 1)
TANH = ufn(sym.stanh, 1)
ATAN = ufn(sym.satan, 1)
SIGMOID = ufn(sym.ssigmoid, 1)
FLOOR = ufn(sym.sfloor, 1)
CEIL = ufn(lambda a: -sym.sfloor(-num(a)), 1)
TRUNC = ufn(sym.strunc, 1)
ROUND = ufn(sym.sround, 1)
SIGN = ufn(sym.ssign, 1)
ISNAN = ufn(s_isnan, 1)
ISFIN = ufn(s_isfinite, 1)
ISINF = ufn(s_isinf, 1)
RELU = ufn(lambda a: sym.smax(a, 0.0), 1)
RECIP = ufn(lambda a: sym.sdiv(1.0, a), 1)
HYPOT = ufn(lambda a, b: sym.ssqrt(a * a + b * b), 2)
TRUTH = ufn(truth, 1)


# dtype ---------------------------------------------------------------------------
FLOATS = ("float16", "float32", "float64", "bfloat16")
INTS = ("uint8", "int8", "int16", "int32", "int64")
SIZES = {"uint8": (0, 255), "int8": (-128, 127), "int16": (-2 ** 15, 2 ** 15 - 1)}


def cast1(v, dt):
    if dt in FLOATS:
        if isb(v):
            return v.as_val() if isinstance(v, SBool) else float(v)
        return v if isinstance(v, SVal) else float(v)
    if dt == "bool":
        return truth(v)
    if dt in INTS:
        v = b2n(v)
        t = sym.strunc(v)
        if not isinstance(t, SVal):
            if not math.isfinite(t):
                return 0
            t = int(t)
        if dt == "uint8":
            if isinstance(t, SVal):
                lo, hi = sym.interval(t)
                if lo < 0 or hi > 255:
                    t = t - 256.0 * sym.sfloor(t / 256.0)
            else:
                t %= 256
        return t
    if dt == "object":
        return v
    raise Unsupported("cast to " + str(dt))


def cast(a, dt, src=None):
    if isinstance(a, np.ndarray):
        if src == dt:
            return a
        if src in FLOATS and dt in FLOATS:
            return a
        return ufn(lambda v: cast1(v, dt), 1)(a)
    return cast1(a, dt)


# reductions ------------------------------------------------------------------------
def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(sorted(int(a) % nd if nd else 0 for a in axis))


def reduce_(a, f, axis=None, keepdim=False, init=None):
    """f: list of scalars -> scalar"""
    a = np.asarray(a)
    nd = a.ndim
    if nd == 0:
        return _box(f([a[()]]))
    ax = norm_axes(axis, nd)
    rest = [i for i in range(nd) if i not in ax]
    b = a.transpose(rest + list(ax))
    rshape = tuple(a.shape[i] for i in rest)
    n = 1
    for i in ax:
        n *= a.shape[i]
    b = b.reshape((-1, n)) if n else np.empty((int(np.prod(rshape)) if rshape else 1, 0), dtype=object)
    out = np.empty(b.shape[0], dtype=object)
    for i in range(b.shape[0]):
        out[i] = f(list(b[i]))
    if keepdim:
        return out.reshape(tuple(1 if i in ax else a.shape[i] for i in range(nd)))
    return out.reshape(rshape)


def l_sum(xs):
    """sum of scalars, merging polynomials in one dict"""
    c = 0.0
    acc = None
    allint = True
    for x in xs:
        x = b2n(x)
        if isinstance(x, SVal):
            if acc is None:
                acc = {}
            for m, k in x.t.items():
                if m in acc:
                    acc[m] = sym._cancel(acc[m], k)
                else:
                    acc[m] = k
        else:
            if not isinstance(x, (int, np.integer)):
                allint = False
            c = c + x
    if acc is None:
        return int(c) if allint and c == c and abs(c) != sym.INF else c
    if c != c or c in (sym.INF, -sym.INF):
        return c
    acc = {m: k for m, k in acc.items() if k != 0.0}
    return sym._mk(acc) + c if acc else c


def l_mean(xs):
    n = len(xs)
    if n == 0:
        return sym.NAN
    return sym.sdiv(l_sum(xs), float(n))


def l_prod(xs):
    r = 1
    for x in xs:
        r = r * b2n(x)
    return r


def l_max(xs):
    if len(xs) == 1:
        return b2n(xs[0])
    return sym.smax_all([b2n(x) for x in xs])


def l_min(xs):
    if len(xs) == 1:
        return b2n(xs[0])
    return sym.smin_all([b2n(x) for x in xs])


def l_var(xs, ddof=0):
    m = l_mean(xs)
    d = len(xs) - ddof
    return sym.sdiv(l_sum([(b2n(x) - m) * (b2n(x) - m) for x in xs]), float(d))


def l_all(xs):
    return sym.ball([truth(x) for x in xs])


def l_any(xs):
    return sym.bany([truth(x) for x in xs])


def l_argmax(xs):
    k = 0
    for i in range(1, len(xs)):
        if bool(sym.cmp_("gt", xs[i], xs[k])):
            k = i
    return k


def l_argmin(xs):
    k = 0
    for i in range(1, len(xs)):
        if bool(sym.cmp_("lt", xs[i], xs[k])):
            k = i
    return k


def argsort_list(xs, descending=False):
    """stable insertion sort; branches on each comparison"""
    idx = []
    for i, x in enumerate(xs):
        j = len(idx)
        while j > 0:
            y = xs[idx[j - 1]]
            before = sym.cmp_("gt", x, y) if descending else sym.cmp_("lt", x, y)
            if bool(before):
                j -= 1
            else:
                break
        idx.insert(j, i)
    return idx


def along(a, f, axis, outdtype=object):
    """apply list->list along an axis (same length)"""
    a = np.asarray(a)
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    sh = b.shape
    b = b.reshape(-1, sh[-1])
    rows = [f(list(r)) for r in b]
    n = len(rows[0]) if rows else sh[-1]
    out = np.empty((len(rows), n), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            out[i, j] = v
    return np.moveaxis(out.reshape(sh[:-1] + (n,)), -1, axis)


# linear algebra ---------------------------------------------------------------------
def native(a):
    """float64 array if `a` is wholly concrete, else None"""
    if isinstance(a, np.ndarray) and a.dtype != object:
        return a.astype(float)
    try:
        return np.asarray(a).astype(float)
    except (TypeError, ValueError, Unsupported):
        return None


def to_obj(a):
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    f = out.reshape(-1)
    lst = a.reshape(-1).tolist()
    for i, v in enumerate(lst):
        f[i] = v
    return f.reshape(a.shape)


def dot_list(xs, ys):
    """sum x*y with dict accumulation"""
    return l_sum([s_mul(x, y) for x, y in zip(xs, ys)
                  if not (not isinstance(x, (SVal, SBool)) and x == 0 and not _odd(y))
                  and not (not isinstance(y, (SVal, SBool)) and y == 0 and not _odd(x))])


def _odd(v):
    """non-finite or possibly undefined: multiplication by zero is not zero"""
    if isinstance(v, SVal):
        return sym.nanc(v) is not False
    if isinstance(v, SBool):
        return False
    return not math.isfinite(v)


def matmul(a, b):
    a, b = np.asarray(a), np.asarray(b)
    na, nb = native(a), native(b)
    if na is not None and nb is not None:
        return to_obj(np.matmul(na, nb))
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.ndim > 2 or b.ndim > 2:
        bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        A = np.broadcast_to(a, bs + a.shape[-2:])
        B = np.broadcast_to(b, bs + b.shape[-2:])
        out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
        for ix in np.ndindex(*bs):
            out[ix] = matmul(A[ix], B[ix])
        return out
    if a.shape[1] != b.shape[0]:
        raise RuntimeError(f"matmul shapes {a.shape} {b.shape}")
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    cols = [list(b[:, j]) for j in range(b.shape[1])]
    for i in range(a.shape[0]):
        r = list(a[i])
        for j in range(b.shape[1]):
            out[i, j] = dot_list(r, cols[j])
    if a1 and b1:
        return out[0, 0]
    if a1:
        return out[0]
    if b1:
        return out[:, 0]
    return out


def pad2d(a, pads, mode, value=0.0):
    """a: (..., H, W); pads = (left, right, top, bottom) (torch order)"""
    l, r, t, b = pads
    H, W = a.shape[-2], a.shape[-1]
    if mode in ("constant", "zeros"):
        # negative pads crop
        out = obj(a.shape[:-2] + (H + t + b, W + l + r), value)
        src = a[..., max(-t, 0):H - max(-b, 0), max(-l, 0):W - max(-r, 0)]
        tt, ll = max(t, 0), max(l, 0)
        out[..., tt:tt + src.shape[-2], ll:ll + src.shape[-1]] = src
        return out
    if mode == "circular":
        if t > H or b > H or l > W or r > W:
            raise AssertionError("Padding value causes wrapping around more than once.")
        rows = [i % H for i in range(-t, H + b)]
        cols = [j % W for j in range(-l, W + r)]
    elif mode == "reflect":
        if t >= H or b >= H or l >= W or r >= W:
            raise RuntimeError("Padding size should be less than the corresponding input dimension")
        rows = [_refl(i, H) for i in range(-t, H + b)]
        cols = [_refl(j, W) for j in range(-l, W + r)]
    elif mode in ("replicate", "edge"):
        rows = [min(max(i, 0), H - 1) for i in range(-t, H + b)]
        cols = [min(max(j, 0), W - 1) for j in range(-l, W + r)]
    else:
        raise Unsupported("pad mode " + str(mode))
    return a[..., rows, :][..., :, cols]


def _refl(i, n):
    if i < 0:
        return -i
    if i >= n:
        return 2 * n - 2 - i
    return i


def conv2d(x, w, bias=None, stride=(1, 1), padding=(0, 0), dilation=(1, 1), groups=1):
    """cross-correlation, x: N C H W ; w: O C/g kh kw"""
    x = np.asarray(x)
    w = np.asarray(w)
    N, C, H, W = x.shape
    O, Cg, kh, kw = w.shape
    if C % groups or O % groups or Cg != C // groups:
        raise RuntimeError(
            f"Given groups={groups}, weight of size {list(w.shape)}, expected input{list(x.shape)} "
            f"to have {Cg * groups} channels, but got {C} channels instead")
    if padding != (0, 0):
        x = pad2d(x, (padding[1], padding[1], padding[0], padding[0]), "constant", 0.0)
        H, W = x.shape[-2:]
    sh, sw = stride
    dh, dw = dilation
    Ho = (H - dh * (kh - 1) - 1) // sh + 1
    Wo = (W - dw * (kw - 1) - 1) // sw + 1
    if Ho <= 0 or Wo <= 0:
        raise RuntimeError("Kernel size can't be greater than actual input size")
    Og = O // groups
    nx, nw = native(x), native(w)
    nbias = None if bias is None else np.asarray(bias)
    if nx is not None and nw is not None:
        out = np.zeros((N, O, Ho, Wo))
        for o in range(O):
            g = o // Og
            for c in range(Cg):
                xc = nx[:, g * Cg + c]
                for i in range(kh):
                    for j in range(kw):
                        k = nw[o, c, i, j]
                        if k == 0.0 and np.isfinite(xc).all():
                            continue
                        out[:, o] += k * xc[:, i * dh:i * dh + sh * (Ho - 1) + 1:sh,
                                            j * dw:j * dw + sw * (Wo - 1) + 1:sw]
        out = to_obj(out)
    else:
        out = _symconv(x, w, nx, nw, N, O, Og, Cg, Ho, Wo, kh, kw, sh, sw, dh, dw)
    if nbias is not None:
        out = ADD(out, nbias.reshape(1, -1, 1, 1))
    return out


def _symconv(x, w, nx, nw, N, O, Og, Cg, Ho, Wo, kh, kw, sh, sw, dh, dw):
    # concrete part natively, symbolic cells scattered
    symx = np.zeros(x.shape, dtype=bool)
    fx = np.zeros(x.shape)
    it = np.ndindex(*x.shape)
    for ix in it:
        v = x[ix]
        if isinstance(v, (SVal, SBool)):
            symx[ix] = True
        else:
            fx[ix] = v
    symw = nw is None
    acc = np.empty((N, O, Ho, Wo), dtype=object)
    if not symw:
        base = np.zeros((N, O, Ho, Wo))
        for o in range(O):
            g = o // Og
            for c in range(Cg):
                xc = fx[:, g * Cg + c]
                for i in range(kh):
                    for j in range(kw):
                        k = nw[o, c, i, j]
                        if k == 0.0:
                            continue
                        base[:, o] += k * xc[:, i * dh:i * dh + sh * (Ho - 1) + 1:sh,
                                             j * dw:j * dw + sw * (Wo - 1) + 1:sw]
        terms = {}
        for (n, cc, r, s) in np.argwhere(symx):
            v = num(x[n, cc, r, s])
            odd = _odd(v)
            g = cc // Cg
            for o in range(g * Og, (g + 1) * Og):
                for i in range(kh):
                    a = r - i * dh
                    if a < 0 or a % sh or a // sh >= Ho:
                        continue
                    for j in range(kw):
                        b = s - j * dw
                        if b < 0 or b % sw or b // sw >= Wo:
                            continue
                        k = nw[o, cc - g * Cg, i, j]
                        if k == 0.0 and not odd:
                            continue
                        terms.setdefault((n, o, a // sh, b // sw), []).append(v * float(k))
        for ix in np.ndindex(N, O, Ho, Wo):
            b = float(base[ix])
            if ix in terms:
                acc[ix] = l_sum(terms[ix] + [b])
            else:
                acc[ix] = b
        return acc
    for n, o, r, s in np.ndindex(N, O, Ho, Wo):
        g = o // Og
        xs = x[n, g * Cg:(g + 1) * Cg, r * sh:r * sh + dh * (kh - 1) + 1:dh,
               s * sw:s * sw + dw * (kw - 1) + 1:dw].reshape(-1)
        acc[n, o, r, s] = dot_list(list(xs), list(w[o].reshape(-1)))
    return acc
