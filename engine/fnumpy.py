"""Fake `numpy`: the real numpy, extended to arrays that hold symbolic scalars.

Arrays created through the fake module have object storage (class SymArray,
an ndarray subclass) with a dtype *tag*; purely integer helpers (arange,
meshgrid, ...) stay native.
"""
import builtins
import copy
import math
import types

import numpy as np

from . import arr, sym
from .arr import cast1, has_sym
from .sym import SVal, SBool, Unsupported

_DT = {}


def dtname(dt):
    if dt is None:
        return "float64"
    if isinstance(dt, str):
        return {"float": "float64", "int": "int64", "double": "float64"}.get(dt, dt)
    if isinstance(dt, TagDtype):
        return dt.name
    if dt is builtins.float:
        return "float64"
    if dt is builtins.int:
        return "int64"
    if dt is builtins.bool:
        return "bool"
    if dt is builtins.object:
        return "object"
    if isinstance(dt, NPType):
        return dt.name
    n = getattr(dt, "np_name", None)
    if n:
        return n
    return np.dtype(dt).name


class TagDtype:
    def __init__(self, name):
        self.name = name
        self.kind = {"f": "f", "u": "u", "i": "i", "b": "b", "o": "O"}[name[0]]

    @property
    def type(self):
        return getattr(NP, self.name)

    def __eq__(self, o):
        try:
            return self.name == dtname(o)
        except Exception:
            return False

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __str__(self):
        return self.name


class NPType:
    """np.uint8 and friends: callable casts usable as dtype"""

    def __init__(self, name):
        self.name = name
        self.__name__ = name

    def __call__(self, x=0):
        if isinstance(x, (SVal, SBool)):
            return cast1(x, self.name)
        x = unwrap(x)
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            return asarray(x).astype(self.name)
        return getattr(np, self.name)(x)

    def __eq__(self, o):
        if o is self:
            return True
        try:
            return dtname(o) == self.name
        except Exception:
            return False

    def __hash__(self):
        return hash(self.name)

    def __instancecheck__(self, o):
        return isinstance(o, getattr(np, self.name))

    def __mro_entries__(self, bases):
        return (getattr(np, self.name),)

    def __repr__(self):
        return f"<class 'numpy.{self.name}'>"


def obj0(x):
    return arr._box(x)


class SymArray(np.ndarray):
    __array_priority__ = 500

    def __new__(cls, a, dt="float64"):
        a = np.asarray(a)
        r = a.view(cls)
        r._dt = dt
        return r

    def __array_finalize__(self, o):
        self._dt = getattr(o, "_dt", "float64")
        self._mask = None

    @property
    def dtype(self):
        return TagDtype(self._dt)

    def raw(self):
        return self.view(np.ndarray)

    def _scalar(self):
        return self.raw().reshape(-1)[0]

    # ---- indexing
    def __getitem__(self, ix):
        ix = _index(ix)
        if isinstance(ix, _SymMask):
            r = SymArray(self.raw().copy(), self._dt)
            r._mask = ix
            return r
        r = self.raw()[ix]
        if isinstance(r, np.ndarray) and r.dtype == object:
            return SymArray(r, self._dt)
        return scal(r, self._dt)

    def __setitem__(self, ix, v):
        ix = _index(ix)
        raw = self.raw()
        if isinstance(ix, _SymMask):
            cond = ix.cond
            if cond.shape != raw.shape:
                cond = np.broadcast_to(cond.reshape(cond.shape + (1,) * (raw.ndim - cond.ndim)), raw.shape)
            if isinstance(v, np.ndarray) and getattr(v, "_mask", None) is not None:
                if not _same_mask(v._mask, ix):
                    raise Unsupported("masked assignment with a different symbolic mask")
                v = v.raw()
            elif isinstance(v, np.ndarray) and v.ndim:
                raise Unsupported("masked assignment from an array")
            v = unwrap(v)
            vv = np.asarray(v) if isinstance(v, np.ndarray) else obj0(v)
            raw[...] = arr.cast(arr.WHERE(cond, vv, raw), self._dt)
            return
        v = unwrap(v)
        if isinstance(v, np.ndarray):
            vv = arr.cast(arr.to_obj(v), self._dt, getattr(v, "_dt", None))
            raw[ix] = vv if vv.ndim else vv[()]
        elif isinstance(v, (list, tuple)):
            raw[ix] = arr.cast(asarray(v).raw(), self._dt)
        else:
            raw[ix] = cast1(v, self._dt)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    # ---- protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        r = self.raw()
        if dtype is not None and np.dtype(dtype) != np.dtype(object):
            n = arr.native(r)
            if n is None:
                raise Unsupported("symbolic array forced into native dtype")
            return n.astype(dtype)
        return r

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self._scalar())

    def __int__(self):
        return int(self._scalar())

    def __index__(self):
        return self._scalar().__index__()

    def __float__(self):
        return float(self._scalar())

    def __format__(self, spec):
        if self.size == 1:
            v = self._scalar()
            return format(v, spec)
        return "<array>"

    def __repr__(self):
        return f"SymArray({self.raw()!r}, {self._dt})"

    def __deepcopy__(self, memo):
        return SymArray(self.raw().copy(), self._dt)

    def __reduce__(self):
        return (_rebuild, (self.shape, list(self.raw().reshape(-1)), self._dt))

    # ---- methods
    def astype(self, dt, copy=True, **k):
        dt = dtname(dt)
        return SymArray(np.array(arr.cast(self.raw(), dt, self._dt), dtype=object, copy=True), dt)

    def copy(self, order="C"):
        return SymArray(self.raw().copy(), self._dt)

    def item(self, *a):
        if a:
            return self.raw().item(*a)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self._scalar()

    def tolist(self):
        return self.raw().tolist()

    def fill(self, v):
        self[...] = v

    def _red(self, f, axis, keepdims, dt=None):
        r = arr.reduce_(self.raw(), f, axis, keepdims)
        dt = dt or self._dt
        return wrap(r, dt)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if self._mask is not None:
            z = arr.WHERE(self._mask.cond, self.raw(), obj0(0.0))
            return wrap(arr.reduce_(z, arr.l_sum, axis, keepdims), self._dt)
        return self._red(arr.l_sum, axis, keepdims, "int64" if self._dt == "bool" else None)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(arr.l_mean, axis, keepdims, "float64")

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return self._red(lambda xs: sym.ssqrt(arr.l_var(xs, ddof)), axis, keepdims, "float64")

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return self._red(lambda xs: arr.l_var(xs, ddof), axis, keepdims, "float64")

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._red(arr.l_max, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._red(arr.l_min, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(arr.l_prod, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self._red(arr.l_all, axis, keepdims, "bool")

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self._red(arr.l_any, axis, keepdims, "bool")

    def argmax(self, axis=None, out=None, **k):
        return self._red(arr.l_argmax, axis, False, "int64")

    def argmin(self, axis=None, out=None, **k):
        return self._red(arr.l_argmin, axis, False, "int64")

    def argsort(self, axis=-1, kind=None, order=None, **k):
        if axis is None:
            return wrap(np.array(arr.argsort_list(list(self.raw().reshape(-1))), dtype=object), "int64")
        return wrap(arr.along(self.raw(), arr.argsort_list, axis), "int64")

    def sort(self, axis=-1, kind=None, order=None, **k):
        self.raw()[...] = arr.along(self.raw(), lambda xs: [xs[i] for i in arr.argsort_list(xs)], axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.raw().reshape(-1) if axis is None else self.raw()
        return wrap(arr.along(a, _cums, -1 if axis is None else axis), self._dt)

    def clip(self, min=None, max=None, out=None, **k):
        r = self.raw()
        if min is not None:
            r = arr.MAX2(r, raw(min))
        if max is not None:
            r = arr.MIN2(r, raw(max))
        if out is not None:
            out[...] = SymArray(r, self._dt)
            return out
        return wrap(r, self._dt)

    def round(self, decimals=0, out=None):
        s = 10.0 ** decimals
        return wrap(arr.ufn(lambda v: sym.sround(v * s) / s, 1)(self.raw()), self._dt)

    def dot(self, o):
        return np_dot(self, o)

    def nonzero(self):
        return _nonzero(self)

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        return SymArray(self.raw(), self._dt)

    def numpy(self):
        raise AttributeError("numpy")

    def tobytes(self):
        raise Unsupported("tobytes of symbolic array")


def _cums(xs):
    out = []
    s = None
    for x in xs:
        s = x if s is None else arr.s_add(s, x)
        out.append(s)
    return out


def _rebuild(shape, flat, dt):
    return SymArray(arr.from_flat(flat, shape), dt)


class _SymMask:
    def __init__(self, cond):
        self.cond = cond


def _same_mask(a, b):
    if a is b:
        return True
    if a.cond.shape != b.cond.shape:
        return False
    return all(sym.bkey(x) == sym.bkey(y) for x, y in zip(a.cond.reshape(-1), b.cond.reshape(-1)))


def _index(ix):
    """normalise an index; symbolic boolean masks become _SymMask"""
    if isinstance(ix, tuple):
        out = []
        for x in ix:
            y = _index1(x)
            if isinstance(y, _SymMask):
                raise Unsupported("symbolic mask inside a tuple index")
            out.append(y)
        return tuple(out)
    return _index1(ix)


def _index1(x):
    x = unwrap(x)
    if isinstance(x, (SVal, SBool)):
        return x.__index__()
    if isinstance(x, np.ndarray):
        if x.dtype == object or isinstance(x, SymArray):
            dt = getattr(x, "_dt", None)
            raw_ = np.asarray(x.raw() if isinstance(x, SymArray) else x)
            flat = list(raw_.reshape(-1))
            if dt == "bool" or (flat and all(arr.isb(v) for v in flat)):
                if any(isinstance(v, SBool) for v in flat):
                    return _SymMask(raw_)
                return np.array([bool(v) for v in flat], dtype=bool).reshape(raw_.shape)
            if dt in arr.FLOATS and flat:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return np.array([int(v) for v in flat], dtype=int).reshape(raw_.shape)
        return x
    if isinstance(x, list):
        return _index1(np.array([v if not isinstance(v, (SVal, SBool)) else v.__index__() for v in x]))
    if isinstance(x, slice):
        f = lambda v: None if v is None else v.__index__()
        return slice(f(x.start), f(x.stop), f(x.step))
    return x


def scal(v, dt=None):
    if isinstance(v, (SVal, SBool)):
        return v
    if isinstance(v, np.generic):
        return v
    if dt == "bool" or isinstance(v, bool):
        return np.bool_(v)
    if dt in arr.INTS and isinstance(v, (int, float)):
        return getattr(np, dt)(int(v))
    if isinstance(v, float):
        return np.float64(v)
    if isinstance(v, int):
        return np.float64(v) if dt in arr.FLOATS else np.int64(v)
    return v


def wrap(a, dt="float64"):
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return scal(a[()], dt)
        return SymArray(a, dt)
    return scal(a, dt)


def unwrap(x):
    """torch fake -> SymArray"""
    f = getattr(x, "_as_symarray", None)
    if f is not None:
        return f()
    return x


def raw(x):
    x = unwrap(x)
    if isinstance(x, SymArray):
        return x.raw()
    if isinstance(x, np.ndarray):
        return arr.to_obj(x)
    if isinstance(x, (list, tuple)):
        return asarray(x).raw()
    return obj0(x)


def tagof(x):
    if isinstance(x, SymArray):
        return x._dt
    if isinstance(x, np.ndarray):
        return x.dtype.name
    if isinstance(x, (bool, np.bool_, SBool)):
        return "bool"
    if isinstance(x, (np.generic,)):
        return x.dtype.name
    if isinstance(x, int):
        return "pyint"
    if isinstance(x, SVal):
        return "pyfloat"
    return "pyfloat"


def promote(*tags):
    fl = [t for t in tags if t in arr.FLOATS]
    it = [t for t in tags if t in arr.INTS]
    if "object" in tags:
        return "object"
    if fl:
        if it and any(t in ("int64", "int32") for t in it):
            return "float64"
        return max(fl, key=lambda t: ("float16", "bfloat16", "float32", "float64").index(t))
    if "pyfloat" in tags:
        return "float64"
    if it:
        return max(it, key=lambda t: ("uint8", "int8", "int16", "int32", "int64").index(t))
    if "pyint" in tags:
        return "int64"
    return "bool"


UF = {
    "add": (arr.ADD, None), "subtract": (arr.SUB, None), "multiply": (arr.MUL, None),
    "divide": (arr.DIV, "float64"), "true_divide": (arr.DIV, "float64"),
    "floor_divide": (arr.FDIV, None), "remainder": (arr.MOD, None), "mod": (arr.MOD, None), "fmod": (arr.FMOD, None),
    "power": (arr.POW, None), "float_power": (arr.POW, "float64"), "negative": (arr.NEG, None), "positive": (lambda a: a, None),
    "absolute": (arr.ABS, None), "fabs": (arr.ABS, None), "abs": (arr.ABS, None),
    "maximum": (arr.MAX2, None), "minimum": (arr.MIN2, None), "fmax": (arr.MAX2, None), "fmin": (arr.MIN2, None),
    "less": (arr.LT, "bool"), "less_equal": (arr.LE, "bool"), "greater": (arr.GT, "bool"),
    "greater_equal": (arr.GE, "bool"), "equal": (arr.EQ, "bool"), "not_equal": (arr.NE, "bool"),
    "logical_and": (arr.AND, "bool"), "logical_or": (arr.OR, "bool"), "logical_not": (arr.NOT, "bool"),
    "logical_xor": (arr.XOR, "bool"), "bitwise_and": (arr.BAND, None), "bitwise_or": (arr.BOR, None),
    "bitwise_xor": (arr.BXOR, None), "invert": (arr.BINV, None), "bitwise_not": (arr.BINV, None),
    "exp": (arr.EXP, "float64"), "log": (arr.LOG, "float64"), "log2": (arr.LOG2, "float64"),
    "log10": (arr.LOG10, "float64"), "log1p": (arr.LOG1P, "float64"), "expm1": (arr.EXPM1, "float64"),
    "sqrt": (arr.SQRT, "float64"), "square": (arr.SQUARE, None), "sin": (arr.SIN, "float64"),
    "cos": (arr.COS, "float64"), "tan": (arr.TAN, "float64"), "tanh": (arr.TANH, "float64"),
    "arctan": (arr.ATAN, "float64"), "floor": (arr.FLOOR, None), "ceil": (arr.CEIL, None),
    "trunc": (arr.TRUNC, None), "rint": (arr.ROUND, None), "sign": (arr.SIGN, None),
    "isnan": (arr.ISNAN, "bool"), "isfinite": (arr.ISFIN, "bool"), "isinf": (arr.ISINF, "bool"),
    "reciprocal": (arr.RECIP, "float64"), "hypot": (arr.HYPOT, "float64"),
    "conjugate": (lambda a: a, None),
}


def _mask_of(inputs):
    for x in inputs:
        m = getattr(x, "_mask", None)
        if m is not None:
            return m
    return None


def ufunc_dispatch(ufunc, method, inputs, kw):
    # torch fakes take over: np.abs(tensor) gives a tensor
    for x in inputs:
        w = getattr(x, "_from_ufunc", None)
        if w is not None:
            ins = [getattr(y, "_as_symarray", lambda y=y: y)() for y in inputs]
            return w(ufunc_dispatch(ufunc, method, ins, kw))
    name = ufunc.__name__
    out = kw.get("out")
    if name == "matmul":
        return np_matmul(*inputs)
    if name not in UF:
        nat = [native_or_none(x) for x in inputs]
        if all(n is not None for n in nat):
            return symwrap_native(getattr(ufunc, method)(*nat))
        raise Unsupported("numpy ufunc " + name)
    f, dt = UF[name]
    if method == "__call__":
        rs = [raw(x) for x in inputs]
        res = f(*rs)
        if kw.get("where") is not None and kw["where"] is not True:
            base = raw(out[0]) if out else obj0(0.0)
            res = arr.WHERE(raw(kw["where"]), res, base)
        if dt is None:
            dt = promote(*[tagof(unwrap(x)) for x in inputs])
            if dt == "bool" and name in ("add", "multiply", "bitwise_and", "bitwise_or", "bitwise_xor", "invert", "bitwise_not"):
                dt = "bool"
            elif dt == "bool":
                dt = "int64"
            if dt == "uint8" and name in ("add", "subtract", "multiply", "negative"):
                res = arr.cast(res, "uint8")
        m = _mask_of(inputs)
        if out is not None and out[0] is not None:
            o = out[0]
            if isinstance(o, SymArray):
                if m is not None:
                    o.raw()[...] = arr.cast(res, o._dt, dt)
                    o._mask = m
                    return o
                o[...] = SymArray(res, dt) if res.ndim else res[()]
                return o
            if has_sym(res):
                raise Unsupported("symbolic result stored into a native numpy array")
            o[...] = arr.native(res)
            return o
        r = wrap(res, dt)
        if m is not None and isinstance(r, SymArray):
            r._mask = m
        return r
    if method == "reduce":
        a = unwrap(inputs[0])
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        g = {"add": arr.l_sum, "multiply": arr.l_prod, "maximum": arr.l_max, "minimum": arr.l_min,
             "logical_and": arr.l_all, "logical_or": arr.l_any}.get(name)
        if g is None:
            raise Unsupported("reduce " + name)
        return wrap(arr.reduce_(raw(a), g, axis, kd), "bool" if "logical" in name else tagof(a))
    if method == "outer":
        a, b = raw(inputs[0]), raw(inputs[1])
        return wrap(f(a.reshape(a.shape + (1,) * b.ndim), b), dt or "float64")
    if method == "accumulate":
        a = raw(inputs[0])
        if name == "add":
            return wrap(arr.along(a, _cums, kw.get("axis", 0)), tagof(inputs[0]))
        if name in ("maximum", "minimum", "multiply", "fmax", "fmin"):
            def run_(v):
                out = [v[0]]
                for x in v[1:]:
                    out.append(f(arr.to_obj(np.array(out[-1], dtype=object)), arr.to_obj(np.array(x, dtype=object)))[()])
                return out
            return wrap(arr.along(a, run_, kw.get("axis", 0)), tagof(inputs[0]))
    raise Unsupported(f"ufunc method {name}.{method}")


def native_or_none(x):
    x = unwrap(x)
    if isinstance(x, SymArray):
        n = arr.native(x.raw())
        if n is None:
            return None
        if x._dt in arr.INTS or x._dt == "bool":
            n = n.astype(x._dt)
        return n
    if isinstance(x, (SVal, SBool)):
        return None
    if isinstance(x, (list, tuple)):
        ys = [native_or_none(v) for v in x]
        if any(y is None and v is not None for y, v in zip(ys, x)):
            return None
        return type(x)(ys)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return arr.native(x)
    return x


def symwrap_native(r):
    if isinstance(r, np.ndarray):
        if r.dtype.name in arr.FLOATS:
            return SymArray(arr.to_obj(r), r.dtype.name)
        return r
    if isinstance(r, tuple):
        return tuple(symwrap_native(x) for x in r)
    if isinstance(r, list):
        return [symwrap_native(x) for x in r]
    return r


# ------------------------------------------------------------------ array functions
H = {}


def handles(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def function_dispatch(func, args, kwargs):
    return call(func.__name__, func, args, kwargs)


def _contains_special(x, depth=0):
    if isinstance(x, (SVal, SBool, SymArray)) or hasattr(x, "_as_symarray"):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth < 4 and isinstance(x, (list, tuple)):
        return builtins.any(_contains_special(v, depth + 1) for v in x)
    return False


def call(name, func, args, kwargs):
    if name in H:
        return H[name](*args, **kwargs)
    nargs = [native_or_none(a) for a in args]
    nk = {k: native_or_none(v) for k, v in kwargs.items()}
    if builtins.any(n is None and a is not None for n, a in zip(nargs, args)) or \
            builtins.any(nk[k] is None and v is not None for k, v in kwargs.items()):
        raise Unsupported("numpy function on symbolic data: " + name)
    return symwrap_native(func(*nargs, **nk))


def deep_list(x):
    """nested sequence -> (flat list, shape)"""
    x = unwrap(x)
    if isinstance(x, SymArray):
        return list(x.raw().reshape(-1)), x.shape, x._dt
    if isinstance(x, np.ndarray):
        return [v for v in arr.to_obj(x).reshape(-1)], x.shape, x.dtype.name
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return [], (0,), "float64"
        parts = [deep_list(v) for v in x]
        sh = parts[0][1]
        if builtins.any(p[1] != sh for p in parts):
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        flat = []
        for p in parts:
            flat.extend(p[0])
        return flat, (len(x),) + tuple(sh), promote(*[p[2] for p in parts])
    if isinstance(x, range):
        return list(x), (len(x),), "int64"
    t = tagof(x)
    if isinstance(x, np.generic):
        x = x.item()
    if not isinstance(x, (SVal, SBool, bool, int, float)):
        return [x], (), "object"
    return [x], (), t


def _ftag(t):
    return {"pyint": "int64", "pyfloat": "float64"}.get(t, t)


def asarray(x, dtype=None, copy=False):
    x = unwrap(x)
    if isinstance(x, SymArray):
        if dtype is None or dtname(dtype) == x._dt:
            return x.copy() if copy else x
        return x.astype(dtype)
    flat, sh, t = deep_list(x)
    t = _ftag(t)
    a = arr.from_flat(flat, sh)
    if dtype is not None:
        dt = dtname(dtype)
        return SymArray(arr.cast(a, dt, t), dt)
    if t in arr.FLOATS:
        a = arr.cast(a, t)
    return SymArray(a, t)


@handles("array")
def np_array(x, dtype=None, copy=True, ndmin=0, subok=False, order=None):
    x = unwrap(x)
    if not _contains_special(x):
        r = np.array(x, dtype=_natdt(dtype), copy=True, ndmin=ndmin)
        return _native_in(r)
    r = asarray(x, dtype, copy=True)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _natdt(dt):
    if dt is None:
        return None
    if isinstance(dt, (NPType, TagDtype)):
        return dt.name
    return dt


def _native_in(r):
    """native float arrays become SymArray (they may later receive symbolic values)"""
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype.kind == "f":
        return SymArray(arr.to_obj(r), r.dtype.name)
    return r


@handles("asarray", "ascontiguousarray", "asanyarray", "asfarray")
def np_asarray(x, dtype=None, **k):
    x = unwrap(x)
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    if not _contains_special(x):
        return _native_in(np.asarray(x, dtype=_natdt(dtype)))
    return asarray(x, dtype)


def _shape(s):
    if isinstance(s, (SVal, SBool)):
        return (s.__index__(),)
    if isinstance(s, (list, tuple, np.ndarray)):
        return tuple(v.__index__() if not isinstance(v, float) else int(v) for v in s)
    return (s.__index__(),)


def _new(shape, v, dtype):
    dt = dtname(dtype)
    return SymArray(arr.obj(_shape(shape), cast1(v, dt)), dt)


@handles("zeros")
def np_zeros(shape, dtype=None, order="C", **k):
    return _new(shape, 0.0, dtype)


@handles("ones")
def np_ones(shape, dtype=None, order="C", **k):
    return _new(shape, 1.0, dtype)


@handles("empty")
def np_empty(shape, dtype=None, order="C", **k):
    return _new(shape, 0.0, dtype)


@handles("full")
def np_full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        dtype = _ftag(tagof(fill_value))
    dt = dtname(dtype)
    r = SymArray(arr.obj(_shape(shape), 0.0), dt)
    r[...] = fill_value
    return r


def _like(a, v, dtype, shape=None):
    a = unwrap(a)
    if not isinstance(a, np.ndarray):
        a = np_asarray(a)
    dt = dtname(dtype) if dtype is not None else _ftag(tagof(a))
    return SymArray(arr.obj(_shape(shape) if shape is not None else a.shape, cast1(v, dt)), dt)


@handles("zeros_like", "empty_like")
def np_zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return _like(a, 0.0, dtype, shape)


@handles("ones_like")
def np_ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return _like(a, 1.0, dtype, shape)


@handles("full_like")
def np_full_like(a, v, dtype=None, order="K", subok=True, shape=None, **k):
    return _like(a, v, dtype, shape)


@handles("eye", "identity")
def np_eye(n, M=None, k=0, dtype=float, **kw):
    return SymArray(arr.to_obj(np.eye(n, M, k)), dtname(dtype))


def _red(m):
    def f(a, axis=None, *args, **k):
        a = unwrap(a)
        if not isinstance(a, np.ndarray):
            a = np_asarray(a)
        if not isinstance(a, SymArray):
            if a.dtype == object:
                a = asarray(a)
            else:
                return symwrap_native(getattr(np, m)(a, axis, *args, **k))
        if args and m in ("sum", "mean", "prod", "std", "var"):
            k["dtype"] = args[0]
        k = {x: y for x, y in k.items() if y is not np._NoValue}
        return getattr(a, m)(axis=axis, **k)
    return f


for _m in ("sum", "mean", "std", "var", "max", "min", "prod", "all", "any", "argmax", "argmin", "cumsum"):
    H[_m] = _red(_m)
H["amax"] = H["max"]
H["amin"] = H["min"]
H["nanmean"] = H["mean"]
H["nansum"] = H["sum"]
H["average"] = lambda a, axis=None, weights=None, **k: (
    H["mean"](a, axis) if weights is None else
    H["sum"](asarray(a) * asarray(weights), axis) / H["sum"](asarray(weights), axis))


@handles("argsort")
def np_argsort(a, axis=-1, kind=None, order=None, **k):
    a = asarray(a)
    if axis is None:
        return a.argsort(None)
    return a.argsort(axis)


@handles("sort")
def np_sort(a, axis=-1, kind=None, order=None, **k):
    a = asarray(a, copy=True)
    a.sort(axis)
    return a


@handles("append")
def np_append(a, values, axis=None):
    a, v = asarray(a), asarray(values)
    if axis is None:
        return np_concatenate([a.reshape(-1), v.reshape(-1)])
    return np_concatenate([a, v], axis=axis)


@handles("concatenate")
def np_concatenate(seq, axis=0, out=None, dtype=None, **k):
    xs = [asarray(x) for x in seq]
    if axis is None:
        xs = [x.reshape(-1) for x in xs]
        axis = 0
    dt = promote(*[x._dt for x in xs]) if dtype is None else dtname(dtype)
    rs = [arr.cast(x.raw(), dt, x._dt) for x in xs]
    return SymArray(np.concatenate(rs, axis=axis), dt)


@handles("stack")
def np_stack(seq, axis=0, **k):
    xs = [asarray(x) for x in seq]
    return SymArray(np.stack([x.raw() for x in xs], axis=axis), promote(*[x._dt for x in xs]))


@handles("vstack", "row_stack")
def np_vstack(seq, **k):
    xs = [asarray(x) for x in seq]
    xs = [x.reshape(1, -1) if x.ndim < 2 else x for x in xs]
    return np_concatenate(xs, 0)


@handles("hstack")
def np_hstack(seq, **k):
    xs = [asarray(x) for x in seq]
    return np_concatenate(xs, 0 if xs[0].ndim <= 1 else 1)


@handles("dstack")
def np_dstack(seq, **k):
    xs = [asarray(x) for x in seq]
    return np_concatenate([x.reshape(x.shape + (1,)) if x.ndim < 3 else x for x in xs], 2)


def _shapefn(name):
    def f(a, *args, **k):
        a = asarray(a)
        r = getattr(np, name)(a.raw(), *args, **k)
        return SymArray(r, a._dt)
    return f


for _n in ("reshape", "ravel", "squeeze", "expand_dims", "transpose", "swapaxes", "moveaxis", "rollaxis", "roll",
           "flip", "fliplr", "flipud", "rot90", "tile", "repeat", "broadcast_to", "take", "atleast_1d",
           "atleast_2d", "atleast_3d", "diag", "diagonal", "delete", "insert", "triu", "tril", "resize", "compress",
           "take_along_axis"):
    H[_n] = _shapefn(_n)


@handles("split", "array_split")
def np_split(a, n, axis=0):
    a = asarray(a)
    return [SymArray(x, a._dt) for x in np.array_split(a.raw(), n, axis)]


@handles("copy")
def np_copy(a, *x, **k):
    return asarray(a).copy()


@handles("pad")
def np_pad(a, pad_width, mode="constant", **k):
    a = asarray(a)
    idx = np.pad(np.arange(a.size).reshape(a.shape), pad_width,
                 mode=mode if mode != "constant" else "constant",
                 **({"constant_values": -1} if mode == "constant" else {}))
    flat = a.raw().reshape(-1)
    cv = k.get("constant_values", 0.0)
    out = np.empty(idx.size, dtype=object)
    for i, j in enumerate(idx.reshape(-1)):
        out[i] = cast1(cv, a._dt) if j < 0 else flat[j]
    return SymArray(out.reshape(idx.shape), a._dt)


@handles("where")
def np_where(c, *xy):
    if not xy:
        return _nonzero(c)
    r = arr.WHERE(raw(c), raw(xy[0]), raw(xy[1]))
    return wrap(r, _ftag(promote(*[tagof(unwrap(v)) for v in xy])))


@handles("nonzero", "flatnonzero", "argwhere")
def _nonzero(a):
    a = asarray(a)
    b = np.array([bool(arr.truth(v)) for v in a.raw().reshape(-1)], dtype=bool).reshape(a.shape)
    return np.nonzero(b)


H["flatnonzero"] = lambda a: _nonzero(asarray(a).reshape(-1))[0]
H["argwhere"] = lambda a: np.stack(_nonzero(a), axis=1)


@handles("count_nonzero")
def np_count_nonzero(a, axis=None, **k):
    a = asarray(a)
    return wrap(arr.reduce_(arr.TRUTH(a.raw()), arr.l_sum, axis), "int64")


@handles("clip")
def np_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.pop("min", a_min)
    a_max = k.pop("max", a_max)
    if isinstance(a, (SVal, SBool, int, float, np.generic)) and not isinstance(a, np.ndarray):
        r = sym.num(a)
        if a_min is not None:
            r = sym.smax(r, a_min)
        if a_max is not None:
            r = sym.smin(r, a_max)
        return scal(r, "float64" if not isinstance(r, int) else None)
    return asarray(a).clip(a_min, a_max, out=out)


@handles("round", "around", "round_")
def np_round(a, decimals=0, out=None):
    if isinstance(a, (SVal, SBool)):
        return round(a, decimals)
    return asarray(a).round(decimals)


@handles("matmul")
def np_matmul(a, b, **k):
    a, b = asarray(a), asarray(b)
    return wrap(arr.matmul(a.raw(), b.raw()), promote(a._dt, b._dt))


@handles("dot")
def np_dot(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return wrap(arr.matmul(a.raw(), b.raw()), promote(a._dt, b._dt))


@handles("inner")
def np_inner(a, b):
    return np_dot(a, asarray(b).T)


@handles("outer")
def np_outer(a, b, **k):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return SymArray(arr.MUL(a.raw()[:, None], b.raw()[None, :]), promote(a._dt, b._dt))


@handles("cov")
def np_cov(m, rowvar=True, bias=False, ddof=None, **k):
    m = asarray(m)
    if not rowvar:
        m = m.T
    n = m.shape[1]
    d = ddof if ddof is not None else (0 if bias else 1)
    c = m - m.mean(axis=1, keepdims=True)
    return np_matmul(c, c.T) / (n - d)


@handles("einsum")
def np_einsum(spec, *ops, **k):
    ops = [asarray(o).raw() for o in ops]
    return wrap(np.einsum(spec, *ops), "float64")


@handles("unique")
def np_unique(a, **k):
    n = native_or_none(asarray(a))
    if n is None:
        raise Unsupported("unique of symbolic data")
    return symwrap_native(np.unique(n, **k))


@handles("histogram", "bincount")
def np_histogram(a, bins=10, range=None, **k):
    n = native_or_none(a)
    if n is None:
        raise Unsupported("histogram of symbolic data")
    return symwrap_native(np.histogram(n, bins, range, **k))


def np_bincount(a, weights=None, minlength=0):
    a = asarray(a).reshape(-1).raw()
    m = minlength
    for v in a:
        hi = sym.interval(v)[1]
        m = builtins.max(m, int(hi) + 1)
    if m > 1024:
        raise Unsupported("bincount range")
    w = None if weights is None else asarray(weights).reshape(-1).raw()
    out = arr.obj((m,), 0)
    for i in builtins.range(m):
        out[i] = arr.l_sum([ite_count(v, i, 1 if w is None else w[j]) for j, v in enumerate(a)])
    return SymArray(out, "int64" if w is None else "float64")


def ite_count(v, i, w):
    return sym.ite(sym.cmp_("eq", v, i), w, 0)


H["bincount"] = np_bincount


@handles("array_equal")
def np_array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool(arr.l_all(list(arr.EQ(a.raw(), b.raw()).reshape(-1))))


@handles("allclose")
def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(H["all"](np_isclose(a, b, rtol, atol)))


@handles("isclose")
def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = raw(a), raw(b)
    return wrap(arr.LE(arr.ABS(arr.SUB(a, b)), arr.ADD(obj0(atol), arr.MUL(obj0(rtol), arr.ABS(b)))), "bool")


@handles("nan_to_num")
def np_nan_to_num(a, copy=True, nan=0.0, **k):
    a = asarray(a)
    return wrap(arr.ufn(lambda v: sym.ite(sym.nanc(v), nan, v) if not isinstance(v, float) or v == v else nan, 1)(a.raw()), a._dt)


@handles("ptp")
def np_ptp(a, axis=None, **k):
    a = asarray(a)
    return a.max(axis) - a.min(axis)


@handles("median")
def np_median(a, axis=None, **k):
    def f(xs):
        ys = [xs[i] for i in arr.argsort_list(xs)]
        n = len(ys)
        return ys[n // 2] if n % 2 else (ys[n // 2 - 1] + ys[n // 2]) / 2
    return wrap(arr.reduce_(asarray(a).raw(), f, axis), "float64")


@handles("shape")
def np_shape(a):
    return unwrap(a).shape if hasattr(unwrap(a), "shape") else asarray(a).shape


@handles("ndim")
def np_ndim(a):
    return len(np_shape(a))


@handles("size")
def np_size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]


@handles("linspace")
def np_linspace(a, b, n=50, endpoint=True, **k):
    n = int(n)
    k.pop("num", None)
    if not is_symany(a, b):
        return _native_in(np.linspace(a, b, n, endpoint=endpoint))
    d = n - 1 if endpoint else n
    return asarray([a + (b - a) * (i / d) for i in builtins.range(n)])


def is_symany(*xs):
    return builtins.any(isinstance(x, (SVal, SBool)) for x in xs)


def np_arange(*a, **k):
    if is_symany(*a):
        a = [x.__index__() if isinstance(x, (SVal, SBool)) else x for x in a]
    r = np.arange(*[unwrap(x).item() if isinstance(unwrap(x), np.ndarray) else x for x in a], **{x: _natdt(y) for x, y in k.items()})
    return r


H["arange"] = np_arange


@handles("isscalar")
def np_isscalar(x):
    return isinstance(x, (SVal, SBool)) or np.isscalar(x)


def np_fft_unsupported(*a, **k):
    raise Unsupported("fft")


class _Rng:
    """np.random: values are world-provided (see world.RNG)"""

    def __init__(self, world):
        self._w = world

    def _u(self, shape, lo, hi, kind, isint=False):
        return self._w.rng_array("np", shape, lo, hi, kind, isint)

    def seed(self, s=None):
        self._w.seed("np", s)

    def rand(self, *shape):
        r = self._u(_shape(shape) if shape else (), 0.0, 1.0, "u")
        return wrap(r)

    def random(self, size=None):
        return wrap(self._u(() if size is None else _shape(size), 0.0, 1.0, "u"))
    random_sample = random
    ranf = random
    sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self.random(size)
        return u * (high - low) + low

    def randn(self, *shape):
        return wrap(self._u(_shape(shape) if shape else (), -6.0, 6.0, "n"))

    def standard_normal(self, size=None):
        return wrap(self._u(() if size is None else _shape(size), -6.0, 6.0, "n"))

    def normal(self, loc=0.0, scale=1.0, size=None):
        sh = () if size is None else _shape(size)
        if size is None:
            sh = np.broadcast(raw(loc), raw(scale)).shape
        return wrap(self._u(sh, -6.0, 6.0, "n")) * scale + loc

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        r = self._u(() if size is None else _shape(size), int(low), int(high) - 1, "i", True)
        return wrap(r, "int64")

    def multivariate_normal(self, mean, cov, size=None, **k):
        m = asarray(mean)
        c = asarray(cov)
        if c.shape != (m.shape[0], m.shape[0]):
            raise ValueError("mean and cov must have same length")
        return self._w.mvn(m, c, size)

    def choice(self, a, size=None, replace=True, p=None):
        return self._w.choice(a, size, replace, p)

    def permutation(self, a):
        xs = list(builtins.range(a)) if isinstance(a, int) else list(a)
        out = self._w.choice(xs, len(xs), False, None)
        return out

    def shuffle(self, a):
        p = list(self._w.choice(list(builtins.range(len(a))), len(a), False, None))
        vals = [copy.copy(a[int(i)]) for i in p]
        for i, v in enumerate(vals):
            a[i] = v

    def get_state(self):
        return ("state", self._w.get_state("np"))

    def set_state(self, s):
        self._w.set_state("np", s[1])

    def default_rng(self, seed=None):
        raise Unsupported("np.random.default_rng")


class FakeNumpy(types.ModuleType):
    def __init__(self, world):
        super().__init__("numpy")
        self.__file__ = np.__file__
        self.__path__ = []
        self.random = _Rng(world)
        self.ndarray = NdMeta("ndarray", (), {})
        self.pi = np.pi
        self.inf = np.inf
        self.nan = np.nan
        self.newaxis = None
        self.save = world.np_save
        self.load = world.np_load
        self.array = np_array
        for t in ("float16", "float32", "float64", "uint8", "int8", "int16", "int32", "int64"):
            setattr(self, t, NPType(t))
        self.float_ = self.float64
        self.bool_ = NPType("bool_") if False else _BoolT("bool")
        self.double = self.float64
        self.int_ = self.int64
        self.float = float
        self.int = int
        self.bool = bool
        self.object = object
        self.dtype = lambda d: TagDtype(dtname(d))
        self.generic = np.generic
        self.number = np.number
        self.integer = np.integer
        self.floating = np.floating
        self.linalg = _Linalg()
        self.fft = types.SimpleNamespace(fft2=np_fft_unsupported, ifft2=np_fft_unsupported, ifftshift=np_fft_unsupported)
        self.testing = np.testing
        self.errstate = np.errstate
        self.seterr = lambda **k: {}
        self.set_printoptions = lambda **k: None
        self.savez = world.np_savez
        self.float128 = None
        global NP
        NP = self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(np, name):
            raise AttributeError(f"module 'numpy' has no attribute '{name}'")
        f = getattr(np, name)
        if isinstance(f, np.ufunc):
            g = _UfuncProxy(f)
        elif callable(f) and not isinstance(f, type):
            def g(*a, _f=f, _n=name, **k):
                if _n in H:
                    if _contains_special(list(a) + list(k.values())) or _n in (
                            "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like",
                            "append", "eye", "identity", "asarray", "linspace", "arange"):
                        return H[_n](*a, **{x: y for x, y in k.items()})
                    return _native_in(_f(*[unwrap(x) for x in a], **{x: _natdt(y) if x == "dtype" else y for x, y in k.items()}))
                if _contains_special(list(a) + list(k.values())):
                    return call(_n, _f, a, k)
                return _f(*a, **{x: _natdt(y) if x == "dtype" else y for x, y in k.items()})
        else:
            g = f
        setattr(self, name, g)
        return g


class _UfuncProxy:
    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        if _contains_special(list(a)):
            ins = [asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
            out = k.get("out")
            if len(ins) > self._f.nin:
                out = ins[self._f.nin]
                ins = ins[:self._f.nin]
            if out is not None and not isinstance(out, tuple):
                k["out"] = (out,)
            return ufunc_dispatch(self._f, "__call__", ins, k)
        r = self._f(*a, **k)
        return r

    def reduce(self, a, axis=0, **k):
        if _contains_special(a):
            return ufunc_dispatch(self._f, "reduce", [asarray(a)], {"axis": axis, **k})
        return self._f.reduce(a, axis=axis, **k)

    def outer(self, a, b, **k):
        if _contains_special([a, b]):
            return ufunc_dispatch(self._f, "outer", [a, b], k)
        return self._f.outer(a, b, **k)

    def accumulate(self, a, axis=0, **k):
        if _contains_special(a):
            return ufunc_dispatch(self._f, "accumulate", [asarray(a)], {"axis": axis})
        return self._f.accumulate(a, axis=axis, **k)

    def __getattr__(self, n):
        return getattr(self._f, n)


class _BoolT(NPType):
    def __call__(self, x=False):
        if isinstance(x, (SVal, SBool)):
            return arr.truth(x)
        return np.bool_(x)


class NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.ndarray)

    def __eq__(cls, o):
        return o is cls or (isinstance(o, type) and issubclass(o, np.ndarray))

    def __hash__(cls):
        return hash("ndarray")

    def __call__(cls, *a, **k):
        return np_zeros(*a, **k)


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def norm(self, a, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2, "fro"):
            if _contains_special(a):
                raise Unsupported("norm ord")
            return np.linalg.norm(a, ord, axis, keepdims)
        a = asarray(a)
        return wrap(arr.reduce_(a.raw(), lambda xs: sym.ssqrt(arr.l_sum([x * x for x in xs])), axis, keepdims), "float64")

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            nat = [native_or_none(x) for x in a]
            if builtins.any(y is None for y in nat):
                raise Unsupported("linalg." + n)
            return symwrap_native(f(*nat, **k))
        return g


NP = None
