"""Fake `torch`: tensors of symbolic scalars with torch's semantics for views,
in-place updates, dtype promotion, masks, modules and parameters.

Floats are reals: dtype is a tag (casts to integers truncate).  Autograd keeps
only the requires_grad / leaf flags that decide which operations raise.
"""
import builtins
import collections
import itertools
import math
import types

import numpy as np

from . import arr, fnumpy, sym
from .fnumpy import SymArray, _SymMask, _index
from .sym import SVal, SBool, Unsupported

# ---------------------------------------------------------------------- dtypes


class DType:
    def __init__(self, name, np_name):
        self.name = name
        self.np_name = np_name
        self.is_floating_point = np_name in arr.FLOATS
        self.is_complex = False

    def __repr__(self):
        return "torch." + self.name

    def __reduce__(self):
        return (_dt_by_np, (self.np_name,))

    def __deepcopy__(self, memo):
        return self


def _dt_by_np(n):
    return DT[n]


DT = {n: DType(n, n) for n in ("float16", "float32", "float64", "bfloat16", "uint8", "int8", "int16", "int32",
                               "int64", "bool")}
float16, float32, float64 = DT["float16"], DT["float32"], DT["float64"]
DEFAULT = [float32]
GRAD = [True]


def todt(d, default=None):
    if d is None:
        return default
    if isinstance(d, DType):
        return d
    if isinstance(d, str):
        return DT[d.replace("torch.", "")]
    if d is builtins.float:
        return DEFAULT[0]
    if d is builtins.int:
        return DT["int64"]
    if d is builtins.bool:
        return DT["bool"]
    return DT[fnumpy.dtname(d)]


class Device:
    def __init__(self, d="cpu", index=None):
        if isinstance(d, Device):
            d, index = d.type, d.index
        if isinstance(d, str) and ":" in d:
            d, i = d.split(":")
            index = int(i)
        if d not in ("cpu", "cuda", "meta", "mps"):
            raise RuntimeError(f"Expected one of cpu, cuda, ... device type at start of device string: {d}")
        self.type = d
        self.index = index

    def __eq__(self, o):
        return isinstance(o, Device) and (self.type, self.index) == (o.type, o.index)

    def __hash__(self):
        return hash((self.type, self.index))

    def __repr__(self):
        return f"device(type='{self.type}')"

    def __str__(self):
        return self.type if self.index is None else f"{self.type}:{self.index}"

    def __deepcopy__(self, memo):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


CPU = Device("cpu")


def chk_device(d):
    if d is None:
        return
    d = Device(d) if not isinstance(d, int) else Device("cuda", d)
    if d.type == "cuda":
        raise RuntimeError("Found no NVIDIA driver on your system")


class Size(tuple):
    def numel(self):
        n = 1
        for x in self:
            n *= x
        return n

    def __repr__(self):
        return f"torch.Size({list(self)})"


def catof(dt):
    return 0 if dt == "bool" else (1 if dt in arr.INTS else 2)


FORD = ("float16", "bfloat16", "float32", "float64")
IORD = ("uint8", "int8", "int16", "int32", "int64")


def _maxdt(ts):
    c = max(catof(t) for t in ts)
    ts = [t for t in ts if catof(t) == c]
    if c == 2:
        return max(ts, key=FORD.index)
    if c == 1:
        return max(ts, key=IORD.index)
    return "bool"


def promote(*xs):
    dim, zero, scal = [], [], []
    for x in xs:
        if isinstance(x, Tensor):
            (dim if x._a.ndim else zero).append(x.dtype.np_name)
        elif isinstance(x, np.ndarray):
            dim.append(fnumpy.tagof(x))
        elif isinstance(x, (builtins.bool, np.bool_, SBool)):
            scal.append("bool")
        elif isinstance(x, np.floating):
            scal.append("f")
        elif isinstance(x, (int, np.integer)):
            scal.append("i")
        else:
            scal.append("f")
    sc = []
    for s in scal:
        sc.append({"bool": "bool", "f": DEFAULT[0].np_name, "i": "int64"}[s])
    best = None
    for group in (dim, zero, sc):
        if not group:
            continue
        g = _maxdt(group)
        if best is None:
            best = g
        elif catof(g) > catof(best):
            best = g
    return DT[best]


# ---------------------------------------------------------------------- Tensor
def _grad_of(xs):
    return GRAD[0] and any(isinstance(x, Tensor) and x.requires_grad for x in xs)


def mk(a, dt, grad=False):
    if not isinstance(a, np.ndarray):
        a = arr._box(a)
    t = Tensor.__new__(Tensor)
    t._init(a, todt(dt))
    if grad and t.dtype.is_floating_point:
        t._rg = True
        t._leaf = False
    return t


def raw(x):
    if isinstance(x, Tensor):
        return x._a
    return fnumpy.raw(x)


def elem(f, xs, dt=None, floaty=False):
    """elementwise op with torch promotion"""
    for x in xs:
        if isinstance(x, (str, dict, types.FunctionType)) or x is None:
            raise TypeError(f"unsupported operand type: {type(x).__name__}")
    rdt = promote(*xs)
    if floaty and not rdt.is_floating_point:
        rdt = DEFAULT[0]
    try:
        r = f(*[raw(x) for x in xs])
    except ValueError as e:
        if "broadcast" in str(e):
            raise RuntimeError("The size of tensor a must match the size of tensor b: " + str(e))
        raise
    out = mk(r, dt or rdt, _grad_of(xs))
    m = [x._mask for x in xs if isinstance(x, Tensor) and x._mask is not None]
    if m:
        out._mask = m[0]
    return out


def _ax(d):
    if d is None:
        return None
    if isinstance(d, (list, tuple)):
        return tuple(int(i) for i in d)
    return int(d)


def _shp(s):
    if len(s) == 1 and isinstance(s[0], (list, tuple, Size)):
        s = s[0]
    return tuple(x.__index__() if not isinstance(x, Tensor) else int(x) for x in s)


class TensorMeta(type):
    pass


class Tensor(metaclass=TensorMeta):
    __array_priority__ = 1000

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, *a, **k):
        if not a:
            self._init(np.empty((0,), dtype=object), DEFAULT[0])
        elif len(a) == 1 and isinstance(a[0], Tensor):
            self._init(a[0]._a, a[0].dtype)
        elif len(a) == 1 and isinstance(a[0], (list, tuple, np.ndarray)):
            t = tensor(a[0])
            self._init(arr.cast(t._a, "float32", t.dtype.np_name), DEFAULT[0])
        else:
            self._init(arr.obj(_shp(a), 0.0), DEFAULT[0])

    def _init(self, a, dt):
        self._a = a
        self._dt = dt
        self._rg = False
        self._leaf = True
        self._mask = None
        self._base = None
        self.grad = None

    # -- attributes
    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return Size(self._a.shape)

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def device(self):
        return CPU

    @property
    def is_cuda(self):
        return False

    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        if not self._leaf and not v:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        self._rg = builtins.bool(v)

    @property
    def is_leaf(self):
        return self._leaf or not self._rg

    @property
    def grad_fn(self):
        return None

    @property
    def data(self):
        return mk(self._a, self._dt)

    @data.setter
    def data(self, v):
        self._a = v._a
        self._dt = v._dt

    @property
    def T(self):
        return self._view(self._a.T)

    @property
    def mT(self):
        return self.transpose(-1, -2)

    # -- interop
    def _as_symarray(self):
        s = SymArray(self._a, self._dt.np_name)
        return s

    @staticmethod
    def _from_ufunc(r):
        return tensor(r)

    def _scalar(self):
        return self._a.reshape(-1)[0]

    def __array__(self, dtype=None, copy=None):
        if self._rg:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return SymArray(self._a, self._dt.np_name)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and len(inputs) == 2 and not kw and isinstance(inputs[0], np.generic):
            # numpy scalars defer to torch's reflected operators
            r = {"add": "__radd__", "subtract": "__rsub__", "multiply": "__rmul__", "divide": "__rtruediv__",
                 "true_divide": "__rtruediv__", "power": "__rpow__"}.get(ufunc.__name__)
            if r is not None:
                return getattr(self, r)(inputs[0].item())
        return fnumpy.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return fnumpy.function_dispatch(func, args, kwargs)

    def numpy(self, force=False):
        if self._rg and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return SymArray(self._a, self._dt.np_name)

    def tolist(self):
        return self._a.tolist() if self._a.ndim else self._a[()]

    def item(self):
        if self._a.size != 1:
            raise RuntimeError(f"a Tensor with {self._a.size} elements cannot be converted to Scalar")
        v = self._scalar()
        if not isinstance(v, (SVal, SBool)):
            c = catof(self._dt.np_name)
            v = [builtins.bool, int, float][c](v)
        return v

    def __bool__(self):
        if self._a.size == 0:
            return False
        if self._a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return builtins.bool(self._scalar())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self._dt.is_floating_point:
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return self.item().__index__()

    def __float__(self):
        return float(self.item())

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self._a.shape[0]

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        for i in range(self._a.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return builtins.bool((self == v).any())

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        if self._a.size == 1:
            return format(self._scalar(), spec)
        return "<tensor>"

    def __repr__(self):
        return f"tensor({self._a.tolist()!r})"

    def __deepcopy__(self, memo):
        if not self.is_leaf:
            raise RuntimeError("Only Tensors created explicitly by the user (graph leaves) support the deepcopy "
                               "protocol at the moment.")
        if id(self) in memo:
            return memo[id(self)]
        r = type(self).__new__(type(self))
        Tensor._init(r, self._a.copy(), self._dt)
        r._rg = self._rg
        memo[id(self)] = r
        return r

    # -- views and indexing
    def _view(self, a):
        r = mk(a if isinstance(a, np.ndarray) else arr._box(a), self._dt, self._rg and GRAD[0])
        r._base = self if self._base is None else self._base
        return r

    @staticmethod
    def _ix(ix):
        if isinstance(ix, Tensor):
            return _index(ix)
        if isinstance(ix, tuple):
            return _index(tuple(ix))
        return _index(ix)

    def __getitem__(self, ix):
        ix = self._ix(ix)
        if isinstance(ix, _SymMask):
            r = mk(self._a.copy(), self._dt, self._rg)
            r._mask = ix
            return r
        try:
            v = self._a[ix]
        except IndexError as e:
            raise IndexError(str(e))
        if not (isinstance(v, np.ndarray) and v.dtype == object):
            # keep a writable 0-d view
            if isinstance(ix, tuple) and Ellipsis not in ix:
                v = self._a[ix + (Ellipsis,)]
            elif not isinstance(ix, tuple):
                v = self._a[ix, ...]
            else:
                v = arr._box(v)
        return self._view(v)

    def _chk_inplace(self):
        b = self._base if self._base is not None else self
        if GRAD[0] and b._rg and b._leaf:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")

    def __setitem__(self, ix, v):
        self._chk_inplace()
        ix = self._ix(ix)
        sa = SymArray(self._a, self._dt.np_name)
        if isinstance(v, Tensor):
            if v._mask is not None:
                w = SymArray(v._a, v._dt.np_name)
                w._mask = v._mask
                v = w
            else:
                v = SymArray(v._a, v._dt.np_name)
        elif isinstance(v, (list, tuple)):
            raise TypeError(f"can't assign a {type(v).__name__} to a torch.FloatTensor")
        if isinstance(ix, _SymMask):
            if isinstance(v, np.ndarray) and getattr(v, "_mask", None) is None and v.ndim == 0:
                v = v[()]
            sa[ix] = v
            return
        try:
            if isinstance(v, np.ndarray):
                vv = arr.cast(v.raw() if isinstance(v, SymArray) else arr.to_obj(v), self._dt.np_name, fnumpy.tagof(v))
                tgt = self._a[ix] if isinstance(self._a[ix], np.ndarray) and self._a[ix].dtype == object else None
                if tgt is not None:
                    while vv.ndim > tgt.ndim and vv.shape[0] == 1:
                        vv = vv[0]
                    self._a[ix] = vv if vv.ndim else vv[()]
                else:
                    if vv.size != 1:
                        raise RuntimeError("shape mismatch")
                    self._a[ix] = vv.reshape(-1)[0]
            else:
                self._a[ix] = arr.cast1(v, self._dt.np_name)
        except ValueError as e:
            raise RuntimeError("shape mismatch: " + str(e))

    # -- conversions
    def detach(self):
        r = mk(self._a, self._dt)
        return r

    def detach_(self):
        self._rg = False
        return self

    def clone(self, **k):
        return mk(self._a.copy(), self._dt, self._rg)

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        chk_device("cuda")

    def contiguous(self, **k):
        return self

    def is_contiguous(self, **k):
        return True

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def to(self, *args, **k):
        dt = k.get("dtype")
        dev = k.get("device")
        for a in args:
            if isinstance(a, DType) or a in (builtins.float, builtins.int, builtins.bool):
                dt = a
            elif isinstance(a, Tensor):
                dt = a.dtype
            elif isinstance(a, (str, Device)):
                dev = a
        chk_device(dev)
        if dt is None or todt(dt) is self._dt:
            return self.clone() if k.get("copy") else self
        return self._cast(todt(dt))

    def _cast(self, dt):
        if dt is self._dt:
            return self
        r = arr.cast(self._a, dt.np_name, self._dt.np_name)
        if r is self._a:
            r = r.copy()
        return mk(r, dt, self._rg)

    def type(self, dt=None, **k):
        if dt is None:
            return "torch.FloatTensor"
        return self.to(todt(dt))

    def type_as(self, o):
        return self.to(o.dtype)

    def float(self):
        return self._cast(DT["float32"])

    def double(self):
        return self._cast(DT["float64"])

    def half(self):
        return self._cast(DT["float16"])

    def int(self):
        return self._cast(DT["int32"])

    def long(self):
        return self._cast(DT["int64"])

    def byte(self):
        return self._cast(DT["uint8"])

    def bool(self):
        return self._cast(DT["bool"])

    # -- shapes
    def dim(self):
        return self._a.ndim
    ndimension = dim

    def size(self, d=None):
        return self.shape if d is None else self._a.shape[d]

    def numel(self):
        return self._a.size
    nelement = numel

    def _reshape(self, s):
        s = _shp(s)
        try:
            return self._view(self._a.reshape(s))
        except ValueError as e:
            raise RuntimeError(f"shape '{list(s)}' is invalid for input of size {self._a.size}")

    def reshape(self, *s):
        return self._reshape(s)

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], DType):
            raise Unsupported("view dtype")
        return self._reshape(s)

    def view_as(self, o):
        return self._reshape((o.shape,))
    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        nd = max(self._a.ndim, 1)
        s, e = start_dim % nd, end_dim % nd
        sh = self._a.shape
        n = 1
        for x in sh[s:e + 1]:
            n *= x
        return self._reshape((sh[:s] + (n,) + sh[e + 1:],))

    def ravel(self):
        return self._reshape((-1,))

    def squeeze(self, dim=None):
        if dim is None:
            return self._view(self._a.squeeze())
        dims = dim if isinstance(dim, (tuple, list)) else (dim,)
        dims = tuple(d for d in dims if self._a.shape[d] == 1)
        return self._view(self._a.squeeze(dims)) if dims else self._view(self._a)

    def unsqueeze(self, dim):
        return self._view(np.expand_dims(self._a, dim))

    def transpose(self, a, b):
        return self._view(self._a.swapaxes(a, b))
    swapaxes = swapdims = transpose

    def t(self):
        return self._view(self._a.T)

    def permute(self, *d):
        return self._view(self._a.transpose(_shp(d)))

    def movedim(self, a, b):
        return self._view(np.moveaxis(self._a, a, b))

    def expand(self, *s):
        s = list(_shp(s))
        off = len(s) - self._a.ndim
        for i, x in enumerate(s):
            if x == -1:
                s[i] = self._a.shape[i - off]
        return self._view(np.broadcast_to(self._a, tuple(s)))

    def expand_as(self, o):
        return self.expand(*o.shape)

    def broadcast_to(self, *s):
        return self.expand(*_shp(s))

    def repeat(self, *s):
        s = _shp(s)
        a = self._a
        while a.ndim < len(s):
            a = a[None]
        return mk(np.tile(a, s), self._dt, self._rg)

    def tile(self, *s):
        return mk(np.tile(self._a, _shp(s)), self._dt, self._rg)

    def repeat_interleave(self, n, dim=None):
        return mk(np.repeat(self._a, n, dim), self._dt, self._rg)

    def roll(self, shifts, dims=None):
        return mk(np.roll(self._a, shifts, dims), self._dt, self._rg)

    def flip(self, *d):
        return mk(np.flip(self._a, _shp(d)).copy(), self._dt, self._rg)

    def fliplr(self):
        return self.flip(1)

    def flipud(self):
        return self.flip(0)

    def rot90(self, k=1, dims=(0, 1)):
        return mk(np.rot90(self._a, k, dims).copy(), self._dt, self._rg)

    def split(self, n, dim=0):
        L = self._a.shape[dim]
        if isinstance(n, int):
            idx = list(range(0, L, n)) + [L]
        else:
            idx = [0] + list(itertools.accumulate(n))
        out = []
        for a, b in zip(idx[:-1], idx[1:]):
            sl = [slice(None)] * self._a.ndim
            sl[dim] = slice(a, b)
            out.append(self._view(self._a[tuple(sl)]))
        return tuple(out)

    def chunk(self, n, dim=0):
        L = self._a.shape[dim]
        return self.split(-(-L // n), dim)

    def unbind(self, dim=0):
        return tuple(self._view(np.moveaxis(self._a, dim, 0)[i, ...]) for i in range(self._a.shape[dim]))

    def narrow(self, dim, start, length):
        sl = [slice(None)] * self._a.ndim
        sl[dim] = slice(start, start + length)
        return self._view(self._a[tuple(sl)])

    def select(self, dim, i):
        return self._view(np.moveaxis(self._a, dim, 0)[i, ...])

    def index_select(self, dim, idx):
        return mk(np.take(self._a, _index(idx), axis=dim), self._dt, self._rg)

    def gather(self, dim, idx):
        return mk(np.take_along_axis(self._a, _index(idx), axis=dim), self._dt, self._rg)

    def take(self, idx):
        return mk(self._a.reshape(-1)[_index(idx)], self._dt, self._rg)

    def unfold(self, dim, size, step):
        n = (self._a.shape[dim] - size) // step + 1
        b = np.moveaxis(self._a, dim, -1)
        parts = [b[..., i * step:i * step + size] for i in range(n)]
        return mk(np.moveaxis(np.stack(parts, axis=-2), -2, dim if dim >= 0 else dim - 1), self._dt, self._rg)

    def diag(self, k=0):
        return mk(np.diag(self._a, k).copy(), self._dt, self._rg)

    def tril(self, k=0):
        return where(mk(arr.to_obj(np.tril(np.ones(self._a.shape), k) > 0), "bool"), self, zeros_like(self))

    # -- reductions
    def _red(self, f, dim, keepdim, dt=None, **k):
        if dim is None:
            dim = k.pop("axis", None)
        keepdim = k.pop("keepdims", keepdim)
        d = _ax(dim)
        if d is not None and self._a.ndim:
            for x in (d if isinstance(d, tuple) else (d,)):
                if not -self._a.ndim <= x < self._a.ndim:
                    raise IndexError("Dimension out of range")
        if d == ():
            d = None
        src = self._a
        if self._mask is not None:
            raise Unsupported("reduction of a symbolically masked selection")
        return mk(arr.reduce_(src, f, d, keepdim), dt or self._dt, self._rg)

    def sum(self, dim=None, keepdim=False, dtype=None, **k):
        if self._mask is not None and dim is None:
            z = arr.WHERE(self._mask.cond, self._a, arr._box(0.0))
            return mk(arr.reduce_(z, arr.l_sum, None, False), self._dt, self._rg)
        return self._red(arr.l_sum, dim, keepdim,
                         todt(dtype) or (self._dt if self._dt.is_floating_point else DT["int64"]), **k)

    def mean(self, dim=None, keepdim=False, dtype=None, **k):
        if not self._dt.is_floating_point and dtype is None:
            raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or "
                               "complex dtype.")
        if self._mask is not None and dim is None:
            z = arr.WHERE(self._mask.cond, self._a, arr._box(0.0))
            n = arr.l_sum(list(self._mask.cond.reshape(-1)))
            return mk(sym.sdiv(arr.reduce_(z, arr.l_sum, None, False)[()], n), self._dt, self._rg)
        return self._red(arr.l_mean, dim, keepdim, dtype, **k)

    nanmean = mean

    def std(self, dim=None, unbiased=True, keepdim=False, correction=None, **k):
        if isinstance(dim, builtins.bool):
            dim, unbiased = None, dim
        dd = correction if correction is not None else (1 if unbiased else 0)
        return self._red(lambda xs: sym.ssqrt(arr.l_var(xs, dd)), dim, keepdim, **k)

    def var(self, dim=None, unbiased=True, keepdim=False, correction=None, **k):
        if isinstance(dim, builtins.bool):
            dim, unbiased = None, dim
        dd = correction if correction is not None else (1 if unbiased else 0)
        return self._red(lambda xs: arr.l_var(xs, dd), dim, keepdim, **k)

    def prod(self, dim=None, keepdim=False, **k):
        return self._red(arr.l_prod, dim, keepdim, **k)

    def all(self, dim=None, keepdim=False, **k):
        return self._red(arr.l_all, dim, keepdim, DT["bool"], **k)

    def any(self, dim=None, keepdim=False, **k):
        return self._red(arr.l_any, dim, keepdim, DT["bool"], **k)

    def _minmax(self, f, g, two, dim, keepdim, k):
        if isinstance(dim, Tensor):
            return elem(two, (self, dim))
        if dim is None:
            dim = k.pop("axis", None)
        if dim is None:
            if self._a.size == 0:
                raise RuntimeError("max(): Expected reduction dim to be specified for input.numel() == 0.")
            return self._red(f, None, False)
        v = self._red(f, dim, keepdim)
        return _MinMax(v, self, g, dim, keepdim)

    def max(self, dim=None, keepdim=False, **k):
        return self._minmax(arr.l_max, arr.l_argmax, arr.MAX2, dim, keepdim, k)

    def min(self, dim=None, keepdim=False, **k):
        return self._minmax(arr.l_min, arr.l_argmin, arr.MIN2, dim, keepdim, k)

    def amax(self, dim=None, keepdim=False):
        return self._red(arr.l_max, dim, keepdim)

    def amin(self, dim=None, keepdim=False):
        return self._red(arr.l_min, dim, keepdim)

    def argmax(self, dim=None, keepdim=False):
        return self._red(arr.l_argmax, dim, keepdim, DT["int64"])

    def argmin(self, dim=None, keepdim=False):
        return self._red(arr.l_argmin, dim, keepdim, DT["int64"])

    def cumsum(self, dim, **k):
        return mk(arr.along(self._a, fnumpy._cums, dim), self._dt, self._rg)

    def sort(self, dim=-1, descending=False, stable=False):
        ix = arr.along(self._a, lambda xs: arr.argsort_list(xs, descending), dim)
        v = np.take_along_axis(self._a, ix.astype(int), axis=dim)
        return _Pair(mk(v, self._dt), mk(ix, "int64"))

    def argsort(self, dim=-1, descending=False, stable=False):
        return self.sort(dim, descending)[1]

    def topk(self, k, dim=-1, largest=True, sorted=True):
        v, i = self.sort(dim, largest)
        return _Pair(v.narrow(dim, 0, k), i.narrow(dim, 0, k))

    def median(self, dim=None, **k):
        def f(xs):
            ix = arr.argsort_list(xs)
            return xs[ix[(len(ix) - 1) // 2]]
        return self._red(f, dim, False)

    def norm(self, p=2, dim=None, keepdim=False, **k):
        if p in (2, 2.0, "fro", None):
            return self._red(lambda xs: sym.ssqrt(arr.l_sum([x * x for x in xs])), dim, keepdim)
        if p == 1:
            return self.abs().sum(dim, keepdim)
        raise Unsupported("norm p")

    def dist(self, o, p=2):
        return (self - o).norm(p)

    def nonzero(self, as_tuple=False):
        n = fnumpy._nonzero(self._as_symarray())
        if as_tuple:
            return tuple(mk(arr.to_obj(x), "int64") for x in n)
        return mk(arr.to_obj(np.stack(n, axis=1)), "int64")

    def count_nonzero(self, dim=None):
        return mk(arr.TRUTH(self._a), "bool").sum(dim)

    def unique(self, *a, **k):
        n = arr.native(self._a)
        if n is None:
            raise Unsupported("unique of symbolic tensor")
        return mk(arr.to_obj(np.unique(n)), self._dt)

    # -- arithmetic with alpha
    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 else o * alpha)

    def mul(self, o):
        return self * o
    multiply = mul

    def div(self, o, rounding_mode=None):
        if rounding_mode == "floor":
            return self // o
        if rounding_mode == "trunc":
            return (self / o).trunc()
        return self / o
    divide = true_divide = div

    def add_(self, o, alpha=1):
        return self._inpl(self.add(o, alpha))

    def sub_(self, o, alpha=1):
        return self._inpl(self.sub(o, alpha))

    def mul_(self, o):
        return self._inpl(self * o)

    def div_(self, o, **k):
        return self._inpl(self.div(o, **k))

    def pow_(self, o):
        return self._inpl(self ** o)

    def addcmul(self, a, b, value=1):
        return self + value * a * b

    def addcdiv(self, a, b, value=1):
        return self + value * a / b

    def lerp(self, end, w):
        return self + w * (end - self)

    def _inpl(self, r):
        self._chk_inplace()
        if not isinstance(r, Tensor):
            r = tensor(r)
        if r._a.shape != self._a.shape:
            try:
                if np.broadcast_shapes(r._a.shape, self._a.shape) != self._a.shape:
                    raise ValueError
            except ValueError:
                raise RuntimeError(f"output with shape {list(self._a.shape)} doesn't match the broadcast shape "
                                   f"{list(r._a.shape)}")
        if catof(r._dt.np_name) > catof(self._dt.np_name):
            raise RuntimeError(f"result type {r._dt.name} can't be cast to the desired output type {self._dt.name}")
        m = self._mask or r._mask
        if not self._a.flags.writeable:
            raise RuntimeError("unsupported operation: more than one element of the written-to tensor refers to a "
                               "single memory location.")
        self._a[...] = arr.cast(r._a, self._dt.np_name, r._dt.np_name)
        self._mask = m
        if r._rg and not self._rg:
            self._rg, self._leaf = True, False
        return self

    # -- in-place misc
    def fill_(self, v):
        self._chk_inplace()
        self._a[...] = arr.cast1(v.item() if isinstance(v, Tensor) else v, self._dt.np_name)
        return self

    def zero_(self):
        return self.fill_(0)

    def copy_(self, o, **k):
        o = o if isinstance(o, Tensor) else tensor(o)
        return self._inpl(mk(arr.cast(o._a, self._dt.np_name, o._dt.np_name), self._dt))

    def clamp_(self, min=None, max=None):
        return self._inpl(self.clamp(min, max))
    clip_ = clamp_

    def masked_fill(self, mask, v):
        return where(mask, v if isinstance(v, Tensor) else tensor(v, dtype=self._dt), self)._cast(self._dt)

    def masked_fill_(self, mask, v):
        return self._inpl(self.masked_fill(mask, v))

    def masked_select(self, mask):
        return self[mask]

    def uniform_(self, a=0, b=1, **k):
        self._chk_inplace()
        u = WORLD[0].rng_array("torch", self._a.shape, 0.0, 1.0, "u")
        self._a[...] = arr.ADD(arr.MUL(u, arr._box(b - a)), arr._box(a)) if (a, b) != (0, 1) else u
        return self

    def normal_(self, mean=0, std=1, **k):
        self._chk_inplace()
        u = WORLD[0].rng_array("torch", self._a.shape, -6.0, 6.0, "n")
        self._a[...] = arr.ADD(arr.MUL(u, arr._box(std)), arr._box(mean))
        return self

    def bernoulli(self, p=None):
        return bernoulli(self if p is None else full_like(self, p))

    def where(self, c, o):
        return where(c, self, o)

    def matmul(self, o):
        return matmul(self, o)
    mm = bmm = matmul

    def dot(self, o):
        return matmul(self, o)

    def clamp(self, min=None, max=None):
        r = self
        if min is None and max is None:
            raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
        if min is not None:
            r = elem(arr.MAX2, (r, min))
        if max is not None:
            r = elem(arr.MIN2, (r, max))
        return r
    clip = clamp

    def clamp_min(self, m):
        return self.clamp(min=m)

    def clamp_max(self, m):
        return self.clamp(max=m)

    def maximum(self, o):
        return elem(arr.MAX2, (self, o))

    def minimum(self, o):
        return elem(arr.MIN2, (self, o))

    def round(self, decimals=0):
        if decimals:
            s = 10.0 ** decimals
            return elem(arr.ufn(lambda v: sym.sround(v * s) / s, 1), (self,))
        return elem(arr.ROUND, (self,))

    def softmax(self, dim):
        e = self.exp()
        return e / e.sum(dim, True)

    def new_zeros(self, *s, dtype=None, **k):
        return zeros(*s, dtype=dtype or self._dt)

    def new_ones(self, *s, dtype=None, **k):
        return ones(*s, dtype=dtype or self._dt)

    def new_full(self, s, v, dtype=None, **k):
        return full(s, v, dtype=dtype or self._dt)

    def new_tensor(self, d, dtype=None, **k):
        return tensor(d, dtype=dtype or self._dt)

    def new_empty(self, *s, dtype=None, **k):
        return zeros(*s, dtype=dtype or self._dt)

    def allclose(self, o, rtol=1e-5, atol=1e-8, **k):
        return allclose(self, o, rtol, atol)

    def equal(self, o):
        return equal(self, o)

    def backward(self, *a, **k):
        if not self._rg:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        WORLD[0].train_log.append(("backward", mk(self._a.copy(), self._dt)))

    def retain_grad(self):
        pass

    def register_hook(self, h):
        pass

    def share_memory_(self):
        return self

    def pin_memory(self):
        return self

    def storage_offset(self):
        return 0

    def data_ptr(self):
        return id(self._a)

    def element_size(self):
        return 4

    def apply_(self, f):
        self._a[...] = arr.ufn(f, 1)(self._a)
        return self


class _MinMax:
    """(values, indices) with indices computed on demand"""

    def __init__(self, v, src, g, dim, keepdim):
        self.values = v
        self._s = (src, g, dim, keepdim)
        self._i = None

    @property
    def indices(self):
        if self._i is None:
            src, g, dim, kd = self._s
            self._i = src._red(g, dim, kd, DT["int64"])
        return self._i

    def __getitem__(self, i):
        if i in (0, -2):
            return self.values
        if i in (1, -1):
            return self.indices
        raise IndexError(i)

    def __iter__(self):
        yield self.values
        yield self.indices

    def __len__(self):
        return 2


class _Pair(tuple):
    def __new__(cls, v, i):
        r = tuple.__new__(cls, (v, i))
        return r
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        return object.__new__(cls)

    def __init__(self, data=None, requires_grad=True):
        if data is None:
            data = Tensor()
        if not isinstance(data, Tensor):
            raise AttributeError(f"'{type(data).__name__}' object has no attribute 'requires_grad'")
        if requires_grad and not data.dtype.is_floating_point:
            raise RuntimeError("Only Tensors of floating point and complex dtype can require gradients")
        self._init(data._a, data._dt)
        self._rg = builtins.bool(requires_grad)

    def __repr__(self):
        return "Parameter containing:\n" + Tensor.__repr__(self)


def _binop(name, f, dt=None, floaty=False, inplace=True):
    def ok(o):
        return isinstance(o, (Tensor, int, float, SVal, SBool, np.generic, np.ndarray))

    def fwd(self, o):
        if not ok(o):
            return NotImplemented
        return elem(f, (self, o), dt, floaty)

    def rev(self, o):
        if not ok(o):
            return NotImplemented
        return elem(f, (o, self), dt, floaty)
    setattr(Tensor, f"__{name}__", fwd)
    setattr(Tensor, f"__r{name}__", rev)
    if inplace:
        def inp(self, o):
            if not ok(o):
                return NotImplemented
            self._inpl(elem(f, (self, o), dt, floaty))
            return self
        setattr(Tensor, f"__i{name}__", inp)


_binop("add", arr.ADD)
_binop("sub", arr.SUB)
_binop("mul", arr.MUL)
_binop("truediv", arr.DIV, None, True)
_binop("floordiv", arr.FDIV)
_binop("mod", arr.MOD)
_binop("pow", arr.POW)
_binop("and", arr.BAND)
_binop("or", arr.BOR)
_binop("xor", arr.BXOR)
Tensor.__matmul__ = lambda s, o: matmul(s, o)
Tensor.__neg__ = lambda s: elem(arr.NEG, (s,))
Tensor.__pos__ = lambda s: s
Tensor.__abs__ = lambda s: elem(arr.ABS, (s,))
Tensor.__invert__ = lambda s: elem(arr.BINV, (s,))


def _cmp(name, alias, f):
    def g(self, o):
        if not isinstance(o, (Tensor, int, float, SVal, SBool, np.generic, np.ndarray)):
            return NotImplemented
        return elem(f, (self, o), DT["bool"])
    setattr(Tensor, f"__{name}__", g)
    for a in alias:
        setattr(Tensor, a, lambda s, o: elem(f, (s, o), DT["bool"]))


_cmp("lt", ("lt", "less"), arr.LT)
_cmp("le", ("le", "less_equal"), arr.LE)
_cmp("gt", ("gt", "greater"), arr.GT)
_cmp("ge", ("ge", "greater_equal"), arr.GE)
_cmp("eq", ("eq",), arr.EQ)
_cmp("ne", ("ne", "not_equal"), arr.NE)
Tensor.__hash__ = lambda s: id(s)

UNARY = {"abs": (arr.ABS, 0), "absolute": (arr.ABS, 0), "neg": (arr.NEG, 0), "negative": (arr.NEG, 0),
         "exp": (arr.EXP, 1), "expm1": (arr.EXPM1, 1), "log": (arr.LOG, 1), "log2": (arr.LOG2, 1),
         "log10": (arr.LOG10, 1), "log1p": (arr.LOG1P, 1), "sqrt": (arr.SQRT, 1), "square": (arr.SQUARE, 0),
         "rsqrt": (lambda a: arr.RECIP(arr.SQRT(a)), 1), "sin": (arr.SIN, 1), "cos": (arr.COS, 1), "tan": (arr.TAN, 1),
         "tanh": (arr.TANH, 1), "atan": (arr.ATAN, 1), "arctan": (arr.ATAN, 1), "sigmoid": (arr.SIGMOID, 1),
         "relu": (arr.RELU, 0), "floor": (arr.FLOOR, 0), "ceil": (arr.CEIL, 0), "trunc": (arr.TRUNC, 0),
         "fix": (arr.TRUNC, 0), "sign": (arr.SIGN, 0), "sgn": (arr.SIGN, 0), "reciprocal": (arr.RECIP, 1),
         "isnan": (arr.ISNAN, 2), "isfinite": (arr.ISFIN, 2), "isinf": (arr.ISINF, 2), "logical_not": (arr.NOT, 2),
         "bitwise_not": (arr.BINV, 0), "frac": (lambda a: arr.SUB(a, arr.TRUNC(a)), 0)}
BINARY = {"pow": (arr.POW, None), "remainder": (arr.MOD, None), "fmod": (arr.FMOD, None),
          "floor_divide": (arr.FDIV, None), "logical_and": (arr.AND, "bool"), "logical_or": (arr.OR, "bool"),
          "logical_xor": (arr.XOR, "bool"), "bitwise_and": (arr.BAND, None), "bitwise_or": (arr.BOR, None),
          "bitwise_xor": (arr.BXOR, None), "hypot": (arr.HYPOT, None), "fmax": (arr.MAX2, None),
          "fmin": (arr.MIN2, None)}


def _unary(n, f, kind):
    def meth(self):
        return elem(f, (self,), DT["bool"] if kind == 2 else None, kind == 1)

    def func(x, out=None, **k):
        if not isinstance(x, Tensor):
            raise TypeError(f"{n}(): argument 'input' (position 1) must be Tensor, not {type(x).__name__}")
        r = meth(x)
        if out is not None:
            return out._inpl(r)
        return r
    if not hasattr(Tensor, n) or n in ("neg",):
        setattr(Tensor, n, meth)
    if kind != 2:
        setattr(Tensor, n + "_", lambda self: self._inpl(meth(self)))
    return func


FUNCS = {}
for _n, (_f, _k) in UNARY.items():
    FUNCS[_n] = _unary(_n, _f, _k)


def _binary(n, f, dt):
    def meth(self, o):
        return elem(f, (self, o), None if dt is None else DT[dt])
    setattr(Tensor, n, meth)
    return lambda a, b, **k: elem(f, (a, b), None if dt is None else DT[dt])


for _n, (_f, _k) in BINARY.items():
    FUNCS[_n] = _binary(_n, _f, _k)

WORLD = [None]

# -------------------------------------------------------------- constructors


def tensor(data, dtype=None, device=None, requires_grad=False, pin_memory=False):
    chk_device(device)
    if isinstance(data, Tensor):
        r = mk(data._a.copy(), data._dt)
        if dtype is not None:
            r = r._cast(todt(dtype))
    else:
        data = fnumpy.unwrap(data)
        if isinstance(data, SymArray):
            r = mk(np.array(data.raw(), dtype=object, copy=True), DT[data._dt])
        elif isinstance(data, np.ndarray):
            if data.dtype == object:
                raise TypeError("can't convert np.ndarray of type numpy.object_.")
            r = mk(np.array(arr.to_obj(data)), DT[data.dtype.name])
        elif isinstance(data, np.generic):
            r = mk(data.item(), DT[data.dtype.name])
        elif isinstance(data, (builtins.bool, SBool)):
            r = mk(data, "bool")
        elif isinstance(data, int):
            r = mk(data, "int64")
        elif isinstance(data, (float, SVal)):
            r = mk(data, DEFAULT[0])
        elif isinstance(data, (list, tuple, range)):
            r = _from_list(list(data))
        else:
            raise RuntimeError(f"Could not infer dtype of {type(data).__name__}")
        if dtype is not None:
            r = r._cast(todt(dtype))
    r._leaf = True
    r._rg = builtins.bool(requires_grad)
    if requires_grad and not r._dt.is_floating_point:
        raise RuntimeError("Only Tensors of floating point and complex dtype can require gradients")
    return r


def _from_list(xs):
    tags = set()

    def conv(x):
        x = fnumpy.unwrap(x)
        if isinstance(x, np.ndarray):
            tags.add("bool" if fnumpy.tagof(x) == "bool" else "int64" if fnumpy.tagof(x) in arr.INTS else
                     ("np" + fnumpy.tagof(x)))
            return arr.to_obj(np.asarray(x) if not isinstance(x, SymArray) else x.raw()).tolist() if x.ndim else \
                arr.to_obj(x).reshape(-1)[0]
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        if isinstance(x, (builtins.bool, np.bool_, SBool)):
            tags.add("bool")
            return x
        if isinstance(x, (int, np.integer)):
            tags.add("int64")
            return int(x)
        if isinstance(x, np.floating):
            tags.add("np" + x.dtype.name)
            return float(x)
        if isinstance(x, (float, SVal)):
            tags.add("f")
            return x
        raise TypeError(f"new(): invalid data type '{type(x).__name__}'")
    ys = conv(xs)

    def shape(v):
        if isinstance(v, list):
            if not v:
                return (0,)
            s = [shape(u) for u in v]
            if any(u != s[0] for u in s):
                raise ValueError(f"expected sequence of length {s[0]} at dim 1")
            return (len(v),) + s[0]
        return ()

    def flat(v):
        if isinstance(v, list):
            for u in v:
                yield from flat(u)
        else:
            yield v
    sh = shape(ys)
    fl = list(flat(ys))
    a = arr.from_flat(fl, sh) if fl else np.empty(sh, dtype=object)
    if "f" in tags or not tags:
        dt = DEFAULT[0].np_name
    elif any(t.startswith("np") for t in tags):
        dt = "float64" if "npfloat64" in tags else sorted(t for t in tags if t.startswith("np"))[-1][2:]
    elif "int64" in tags:
        dt = "int64"
    else:
        dt = "bool"
    return mk(arr.cast(a, dt), dt)


def as_tensor(d, dtype=None, device=None):
    if isinstance(d, Tensor):
        return d.to(dtype) if dtype is not None else d
    return tensor(d, dtype, device)


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError(f"expected np.ndarray (got {type(a).__name__})")
    if isinstance(a, SymArray):
        return mk(a.raw(), DT[a._dt])
    return tensor(a)


def _filled(v):
    def f(*s, dtype=None, device=None, requires_grad=False, out=None, size=None, **k):
        chk_device(device)
        if size is not None:
            s = (size,)
        dt = todt(dtype, DEFAULT[0])
        sh = _shp(s)
        if any(x < 0 for x in sh):
            raise RuntimeError("Trying to create tensor with negative dimension")
        r = mk(arr.obj(sh, arr.cast1(v, dt.np_name)), dt)
        r._rg = requires_grad
        return r
    return f


zeros = _filled(0.0)
ones = _filled(1.0)
empty = _filled(0.0)


def full(size, v, dtype=None, device=None, **k):
    if isinstance(v, Tensor):
        v = v.item()
    dt = todt(dtype, DEFAULT[0] if not isinstance(v, (builtins.bool, int)) else
              (DT["bool"] if isinstance(v, builtins.bool) else DT["int64"]))
    return mk(arr.obj(_shp((size,)) if not isinstance(size, int) else (size,), arr.cast1(v, dt.np_name)), dt)


def zeros_like(x, dtype=None, **k):
    return zeros(*x.shape, dtype=dtype or x.dtype) if x.ndim else mk(arr.cast1(0.0, (todt(dtype) or x.dtype).np_name), dtype or x.dtype)


def ones_like(x, dtype=None, **k):
    return full(tuple(x.shape), 1, dtype=dtype or x.dtype)


def full_like(x, v, dtype=None, **k):
    return full(tuple(x.shape), v, dtype=dtype or x.dtype)


empty_like = zeros_like


def arange(*a, dtype=None, device=None, **k):
    a = [x.item() if isinstance(x, Tensor) else x for x in a]
    a = [x.__index__() if isinstance(x, SVal) else x for x in a]
    n = np.arange(*a)
    dt = todt(dtype, DEFAULT[0] if any(isinstance(x, float) for x in a) else DT["int64"])
    return mk(arr.cast(arr.to_obj(n), dt.np_name), dt)


def linspace(a, b, steps, dtype=None, **k):
    a = a.item() if isinstance(a, Tensor) else a
    b = b.item() if isinstance(b, Tensor) else b
    if steps == 1:
        return tensor([a])
    return mk(arr.from_flat([a + (b - a) * (i / (steps - 1)) for i in range(steps)], (steps,)), dtype or DEFAULT[0])


def eye(n, m=None, dtype=None, **k):
    return mk(arr.to_obj(np.eye(n, m)), dtype or DEFAULT[0])


def _rngf(kind, lo, hi):
    def f(*s, dtype=None, device=None, requires_grad=False, generator=None, size=None, **k):
        chk_device(device)
        if size is not None:
            s = (size,)
        return mk(WORLD[0].rng_array("torch", _shp(s), lo, hi, kind), todt(dtype, DEFAULT[0]))
    return f


rand = _rngf("u", 0.0, 1.0)
randn = _rngf("n", -6.0, 6.0)


def rand_like(x, **k):
    return rand(*x.shape)


def randn_like(x, **k):
    return randn(*x.shape)


def randint(low, high=None, size=None, **k):
    if size is None:
        low, high, size = 0, low, high
    return mk(WORLD[0].rng_array("torch", tuple(size), int(low), int(high) - 1, "i", True),
              todt(k.get("dtype"), DT["int64"]))


def randperm(n, **k):
    p = WORLD[0].choice(list(range(n)), n, False, None)
    return mk(arr.to_obj(np.array([int(x) for x in p])), "int64")


def normal(mean=0.0, std=1.0, size=None, **k):
    if size is None:
        size = (mean if isinstance(mean, Tensor) else std).shape
    return randn(*size) * std + mean


def bernoulli(p, **k):
    u = WORLD[0].rng_array("torch", p.shape, 0.0, 1.0, "u")
    return mk(arr.cast(arr.LT(u, p._a), p.dtype.np_name, "bool"), p.dtype)


def manual_seed(s):
    WORLD[0].seed("torch", s)


# ------------------------------------------------------------------ functions
def cat(ts, dim=0, out=None, **k):
    if "axis" in k:
        dim = k["axis"]
    ts = list(ts)
    for t in ts:
        if not isinstance(t, Tensor):
            raise TypeError(f"expected Tensor as element in argument 0, but got {type(t).__name__}")
    use = [t for t in ts if t._a.shape != (0,)] or ts[:1]
    dt = DT[_maxdt([t.dtype.np_name for t in ts])]
    for t in use[1:]:
        if t._a.ndim != use[0]._a.ndim:
            raise RuntimeError("Tensors must have same number of dimensions")
    try:
        a = np.concatenate([arr.cast(t._a, dt.np_name, t.dtype.np_name) for t in use], axis=dim)
    except ValueError as e:
        raise RuntimeError("Sizes of tensors must match except in dimension: " + str(e))
    except np.exceptions.AxisError as e:
        raise IndexError("Dimension out of range")
    return mk(a, dt, _grad_of(ts))


concat = concatenate = cat


def stack(ts, dim=0, **k):
    ts = list(ts)
    try:
        return mk(np.stack([t._a for t in ts], axis=dim), DT[_maxdt([t.dtype.np_name for t in ts])], _grad_of(ts))
    except ValueError as e:
        raise RuntimeError("stack expects each tensor to be equal size: " + str(e))


def hstack(ts):
    return cat([t.reshape(1) if t.ndim == 0 else t for t in ts], dim=0 if ts[0].ndim <= 1 else 1)


def vstack(ts):
    return cat([t.reshape(1, -1) if t.ndim <= 1 else t for t in ts], dim=0)


def where(c, a=None, b=None):
    if a is None:
        return c.nonzero(as_tuple=True)
    dt = promote(a, b)
    r = arr.WHERE(raw(c), arr.cast(raw(a), dt.np_name), arr.cast(raw(b), dt.np_name))
    return mk(r, dt, _grad_of((a, b)))


def matmul(a, b, **k):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise TypeError("matmul(): argument must be Tensor")
    try:
        return mk(arr.matmul(a._a, b._a), promote(a, b), _grad_of((a, b)))
    except ValueError as e:
        raise RuntimeError(str(e))


def einsum(spec, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    return mk(np.einsum(spec, *[o._a for o in ops]), promote(*ops), _grad_of(ops))


def tensordot(a, b, dims=2):
    return mk(np.tensordot(a._a, b._a, dims), promote(a, b), _grad_of((a, b)))


def outer(a, b):
    return a.reshape(-1, 1) * b.reshape(1, -1)


def maximum(a, b):
    return elem(arr.MAX2, (a, b))


def minimum(a, b):
    return elem(arr.MIN2, (a, b))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return (a - b).abs() <= atol + rtol * (b.abs() if isinstance(b, Tensor) else abs(b))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(isclose(a, b, rtol, atol).all())


bool_ = builtins.bool


def equal(a, b):
    if a.shape != b.shape:
        return False
    return bool((a == b).all())


def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    idx = np.meshgrid(*[np.arange(t._a.size) for t in ts], indexing=indexing)
    return tuple(mk(t._a.reshape(-1)[i], t.dtype) for t, i in zip(ts, idx))


def is_tensor(x):
    return isinstance(x, Tensor)


def numel(x):
    return x.numel()


def gaussian_nll(*a, **k):
    raise Unsupported("nll")


class _NoGrad:
    def __init__(self, v=False):
        self.v = v

    def __enter__(self):
        self.old = GRAD[0]
        GRAD[0] = self.v

    def __exit__(self, *a):
        GRAD[0] = self.old

    def __call__(self, f):
        if isinstance(f, builtins.bool):
            return _NoGrad(f)

        def g(*a, **k):
            with _NoGrad(self.v):
                return f(*a, **k)
        return g


METHOD_FUNCS = ("sum mean std var max min amax amin argmax argmin any all prod cumsum sort argsort topk median norm "
                "clamp clip clamp_min clamp_max reshape squeeze unsqueeze transpose permute flatten ravel roll flip "
                "rot90 fliplr flipud split chunk unbind index_select gather masked_fill masked_select round "
                "nonzero count_nonzero unique diag tril clone detach add sub mul multiply div divide true_divide "
                "mm bmm dot swapaxes movedim lt le gt ge eq ne less less_equal greater greater_equal not_equal "
                "addcmul addcdiv lerp tile repeat_interleave broadcast_to softmax narrow select take dist t "
                "swapdims nanmean").split()


def _mf(n):
    def f(x, *a, **k):
        if "input" in k:
            x = k.pop("input")
        if not isinstance(x, Tensor):
            if isinstance(x, (SVal, SBool, int, float)) and n in ("add", "sub", "mul", "div", "true_divide"):
                x = tensor(x)
            else:
                raise TypeError(f"{n}(): argument 'input' (position 1) must be Tensor, not {type(x).__name__}")
        out = k.pop("out", None)
        r = getattr(x, n)(*a, **k)
        if out is not None:
            return out._inpl(r)
        return r
    return f


# ------------------------------------------------------------------ functional
def _pair(v):
    return (int(v), int(v)) if not isinstance(v, (tuple, list)) else (tuple(int(x) for x in v) * (2 if len(v) == 1 else 1))


def f_conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    un = False
    if x.ndim == 3:
        x = x.unsqueeze(0)
        un = True
    if x.ndim != 4:
        raise RuntimeError(f"Expected 3D (unbatched) or 4D (batched) input to conv2d, but got input of size: {list(x.shape)}")
    if x.dtype is not w.dtype:
        if "float16" in (x.dtype.np_name, w.dtype.np_name):
            raise RuntimeError("Input type (c10::Half) and bias type (float) should be the same")
        raise RuntimeError(f"expected scalar type {w.dtype.name} but found {x.dtype.name}")
    if x.dtype.np_name == "float16":
        raise RuntimeError("\"slow_conv2d_cpu\" not implemented for 'Half'")
    if padding == "same":
        k = w.shape[-1]
        padding = (w.shape[-2] // 2, k // 2)
    elif padding == "valid":
        padding = 0
    r = arr.conv2d(x._a, w._a, None if bias is None else bias._a, _pair(stride), _pair(padding), _pair(dilation), groups)
    t = mk(r, x.dtype, _grad_of((x, w, bias)))
    return t[0] if un else t


def f_pad(x, pad, mode="constant", value=0.0):
    pad = [int(p) for p in pad]
    a = x._a
    v = 0.0 if value is None else value
    if mode == "constant":
        full_ = list(pad) + [0] * (2 * a.ndim - len(pad))
        if len(pad) <= 4 and a.ndim >= 2:
            p4 = (pad + [0, 0])[:4]
            return mk(arr.pad2d(a, p4, "constant", arr.cast1(v, x.dtype.np_name)), x.dtype, x._rg)
        widths = [(full_[2 * i], full_[2 * i + 1]) for i in range(a.ndim)][::-1]
        return mk(np.pad(a, widths, constant_values=v), x.dtype, x._rg)
    if len(pad) == 2:
        pad = pad + [0, 0]
        b = a[..., None, :] if a.ndim < 4 else a
        r = arr.pad2d(b, pad, mode)
        return mk(r.reshape(a.shape[:-1] + (r.shape[-1],)) if a.ndim < 4 else r, x.dtype, x._rg)
    return mk(arr.pad2d(a, pad, mode), x.dtype, x._rg)


def f_pool(x, k, stride=None, padding=0, f=None, **kw):
    k = _pair(k)
    s = _pair(stride) if stride is not None else k
    a = x._a
    if _pair(padding) != (0, 0):
        raise Unsupported("padded pooling")
    H, W = a.shape[-2:]
    Ho, Wo = (H - k[0]) // s[0] + 1, (W - k[1]) // s[1] + 1
    if Ho <= 0 or Wo <= 0:
        raise RuntimeError("Given input size: Output size is too small")
    out = np.empty(a.shape[:-2] + (Ho, Wo), dtype=object)
    for ix in np.ndindex(*out.shape):
        i, j = ix[-2:]
        out[ix] = f(list(a[ix[:-2]][i * s[0]:i * s[0] + k[0], j * s[1]:j * s[1] + k[1]].reshape(-1)))
    return mk(out, x.dtype, x._rg)


def f_avg_pool2d(x, kernel_size, stride=None, padding=0, **k):
    return f_pool(x, kernel_size, stride, padding, arr.l_mean)


def f_max_pool2d(x, kernel_size, stride=None, padding=0, **k):
    return f_pool(x, kernel_size, stride, padding, arr.l_max)


def f_relu(x, inplace=False):
    return x._inpl(x.relu()) if inplace else x.relu()


def f_leaky(x, s=0.01, inplace=False):
    return where(x > 0, x, x * s)


def f_silu(x, inplace=False):
    return x * x.sigmoid()


def f_elu(x, alpha=1.0, inplace=False):
    return where(x > 0, x, alpha * (x.exp() - 1))


def f_dropout(x, p=0.5, training=True, inplace=False):
    if not training or p == 0:
        return x
    u = mk(WORLD[0].rng_array("torch", x.shape, 0.0, 1.0, "u"), x.dtype)
    return where(u < p, zeros_like(x), x / (1 - p))


def f_linear(x, w, b=None):
    r = matmul(x, w.t())
    return r if b is None else r + b


def f_mse(a, b, reduction="mean", **k):
    r = (a - b) ** 2
    return r.mean() if reduction == "mean" else (r.sum() if reduction == "sum" else r)


def f_l1(a, b, reduction="mean", **k):
    r = (a - b).abs()
    return r.mean() if reduction == "mean" else (r.sum() if reduction == "sum" else r)


def f_bce(a, b, reduction="mean", **k):
    if a.shape != b.shape:
        raise ValueError(f"Using a target size ({b.shape}) that is different to the input size ({a.shape}) is deprecated.")
    # log terms are bounded below by -100
    tiny = 3.720075976020836e-44
    r = -(b * a.clamp(min=tiny).log() + (1.0 - b) * (1.0 - a).clamp(min=tiny).log())
    return r.mean() if reduction == "mean" else (r.sum() if reduction == "sum" else r)


def f_interpolate(x, size=None, scale_factor=None, mode="nearest", **k):
    if mode != "nearest":
        raise Unsupported("interpolate " + mode)
    H, W = x.shape[-2:]
    if size is None:
        s = _pair(scale_factor)
        size = (H * s[0], W * s[1])
    size = _pair(size)
    r = [int(i * H / size[0]) for i in range(size[0])]
    c = [int(i * W / size[1]) for i in range(size[1])]
    return mk(x._a[..., r, :][..., :, c], x.dtype, x._rg)


def f_softmax(x, dim=-1, **k):
    return x.softmax(dim)


# ---------------------------------------------------------------------- modules
class Module:
    def __init__(self, *a, **k):
        object.__setattr__(self, "_parameters", collections.OrderedDict())
        object.__setattr__(self, "_modules", collections.OrderedDict())
        object.__setattr__(self, "_buffers", collections.OrderedDict())
        object.__setattr__(self, "training", True)

    def _has(self):
        return "_parameters" in self.__dict__

    def __setattr__(self, name, v):
        if isinstance(v, Parameter):
            if not self._has():
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            self.__dict__.pop(name, None)
            self._modules.pop(name, None)
            self._buffers.pop(name, None)
            self._parameters[name] = v
            return
        if self._has() and name in self._parameters:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v).__name__}' as parameter '{name}' (torch.nn.Parameter or None expected)")
            self._parameters[name] = None
            return
        if isinstance(v, Module):
            if not self._has():
                raise AttributeError("cannot assign module before Module.__init__() call")
            self.__dict__.pop(name, None)
            self._modules[name] = v
            return
        if self._has() and name in self._modules:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v).__name__}' as child module '{name}' (torch.nn.Module or None expected)")
            self._modules[name] = None
            return
        if self._has() and name in self._buffers:
            self._buffers[name] = v
            return
        object.__setattr__(self, name, v)

    def __getattr__(self, name):
        d = self.__dict__
        for k in ("_parameters", "_modules", "_buffers"):
            if k in d and name in d[k]:
                return d[k][name]
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'")

    def __delattr__(self, name):
        for k in ("_parameters", "_modules", "_buffers"):
            if name in self.__dict__[k]:
                del self.__dict__[k][name]
                return
        object.__delattr__(self, name)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def forward(self, *a, **k):
        raise NotImplementedError(f"Module [{type(self).__name__}] is missing the required \"forward\" function")

    def register_parameter(self, name, p):
        if "_parameters" not in self.__dict__:
            raise AttributeError("cannot assign parameter before Module.__init__() call")
        if "." in name:
            raise KeyError('parameter name can\'t contain "."')
        if name == "":
            raise KeyError('parameter name can\'t be empty string ""')
        if hasattr(self, name) and name not in self._parameters:
            raise KeyError(f"attribute '{name}' already exists")
        if p is not None and not isinstance(p, Parameter):
            raise TypeError(f"cannot assign '{type(p).__name__}' object to parameter '{name}' (torch.nn.Parameter or None required)")
        if p is not None and not p._leaf:
            raise ValueError("Cannot assign non-leaf Tensor to parameter")
        self._parameters[name] = p

    def register_buffer(self, name, t, persistent=True):
        self._buffers[name] = t

    def add_module(self, name, m):
        if hasattr(self, name) and name not in self._modules:
            raise KeyError(f"attribute '{name}' already exists")
        self._modules[name] = m
    register_module = add_module

    def named_modules(self, memo=None, prefix="", remove_duplicate=True):
        memo = set() if memo is None else memo
        if self not in memo:
            memo.add(self)
            yield prefix, self
            for n, m in self._modules.items():
                if m is not None:
                    yield from m.named_modules(memo, prefix + ("." if prefix else "") + n)

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def children(self):
        for m in self._modules.values():
            if m is not None:
                yield m

    def named_children(self):
        for n, m in self._modules.items():
            if m is not None:
                yield n, m

    def named_parameters(self, prefix="", recurse=True, remove_duplicate=True):
        memo = set()
        for mn, m in (self.named_modules(prefix=prefix) if recurse else [(prefix, self)]):
            for n, p in list(m._parameters.items()):
                if p is None or id(p) in memo:
                    continue
                memo.add(id(p))
                yield mn + ("." if mn else "") + n, p

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    def named_buffers(self, *a, **k):
        for mn, m in self.named_modules():
            for n, p in m._buffers.items():
                yield mn + ("." if mn else "") + n, p

    def buffers(self, *a):
        for _, b in self.named_buffers():
            yield b

    def _apply_to_all(self, f):
        for m in self.modules():
            for n, p in m._parameters.items():
                if p is not None:
                    q = f(p)
                    p._a, p._dt = q._a, q._dt
            for n, b in m._buffers.items():
                if b is not None:
                    m._buffers[n] = f(b)
        return self

    def to(self, *a, **k):
        dt = k.get("dtype")
        dev = k.get("device")
        for x in a:
            if isinstance(x, DType):
                dt = x
            elif isinstance(x, (str, Device)):
                dev = x
            elif isinstance(x, Tensor):
                dt = x.dtype
        chk_device(dev)
        if dt is not None:
            self._apply_to_all(lambda p: p.detach()._cast(dt) if p.dtype.is_floating_point else p)
        return self

    def float(self):
        return self.to(DT["float32"])

    def double(self):
        return self.to(DT["float64"])

    def half(self):
        return self.to(DT["float16"])

    def cpu(self):
        return self

    def cuda(self, *a):
        chk_device("cuda")

    def apply(self, f):
        for m in self.children():
            m.apply(f)
        f(self)
        return self

    def train(self, mode=True):
        self.training = mode
        for m in self.children():
            m.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, v=True):
        for p in self.parameters():
            p.requires_grad = v
        return self

    def zero_grad(self, *a, **k):
        WORLD[0].train_log.append(("zero",))

    def state_dict(self, *a, prefix="", **k):
        d = collections.OrderedDict()
        for mn, m in self.named_modules():
            for src in (m._parameters, m._buffers):
                for n, p in src.items():
                    if p is not None:
                        d[prefix + mn + ("." if mn else "") + n] = p.detach()
        return d

    def load_state_dict(self, sd, strict=True):
        own = {}
        for mn, m in self.named_modules():
            for src in (m._parameters, m._buffers):
                for n, p in src.items():
                    if p is not None:
                        own[mn + ("." if mn else "") + n] = p
        missing = [k for k in own if k not in sd]
        unexp = [k for k in sd if k not in own]
        if strict and (missing or unexp):
            raise RuntimeError(f"Error(s) in loading state_dict: Missing key(s) {missing}, Unexpected key(s) {unexp}")
        with _NoGrad():
            for k, v in sd.items():
                if k in own:
                    if own[k].shape != v.shape:
                        raise RuntimeError(f"size mismatch for {k}")
                    own[k].copy_(v)

    def extra_repr(self):
        return ""

    def register_forward_hook(self, *a, **k):
        raise Unsupported("hooks")

    def __dir__(self):
        return list(self.__dict__) + list(self._parameters) + list(self._modules)


class Conv2d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True,
                 padding_mode="zeros", device=None, dtype=None):
        super().__init__()
        if groups <= 0:
            raise ValueError("groups must be a positive integer")
        if in_channels % groups:
            raise ValueError("in_channels must be divisible by groups")
        if out_channels % groups:
            raise ValueError("out_channels must be divisible by groups")
        if padding_mode not in ("zeros", "reflect", "replicate", "circular"):
            raise ValueError(f"padding_mode must be one of 'zeros', 'reflect', 'replicate', 'circular', but got padding_mode='{padding_mode}'")
        self.in_channels, self.out_channels = in_channels, out_channels
        self.kernel_size = _pair(kernel_size)
        self.stride, self.dilation = _pair(stride), _pair(dilation)
        if padding == "same":
            padding = tuple((k - 1) // 2 for k in self.kernel_size)
        elif padding == "valid":
            padding = 0
        self.padding = _pair(padding)
        self.groups = groups
        self.padding_mode = padding_mode
        sh = (out_channels, in_channels // groups) + self.kernel_size
        b = 1.0 / math.sqrt(max(1, sh[1] * sh[2] * sh[3]))
        self.weight = Parameter(mk(WORLD[0].init_array(sh, b), DEFAULT[0]))
        if bias:
            self.bias = Parameter(mk(WORLD[0].init_array((out_channels,), b), DEFAULT[0]))
        else:
            self.register_parameter("bias", None)

    def forward(self, x):
        p = self.padding
        if self.padding_mode != "zeros" and p != (0, 0):
            x = f_pad(x, (p[1], p[1], p[0], p[0]), self.padding_mode)
            p = 0
        elif self.padding_mode != "zeros":
            p = 0
        return f_conv2d(x, self.weight, self.bias, self.stride, p, self.dilation, self.groups)


class Linear(Module):
    def __init__(self, i, o, bias=True, **k):
        super().__init__()
        self.in_features, self.out_features = i, o
        b = 1.0 / math.sqrt(max(i, 1))
        self.weight = Parameter(mk(WORLD[0].init_array((o, i), b), DEFAULT[0]))
        if bias:
            self.bias = Parameter(mk(WORLD[0].init_array((o,), b), DEFAULT[0]))
        else:
            self.register_parameter("bias", None)

    def forward(self, x):
        return f_linear(x, self.weight, self.bias)


class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        if len(ms) == 1 and isinstance(ms[0], collections.OrderedDict):
            for n, m in ms[0].items():
                self.add_module(n, m)
        else:
            for i, m in enumerate(ms):
                if not isinstance(m, Module):
                    raise TypeError(f"{type(m).__name__} is not a Module subclass")
                self.add_module(str(i), m)

    def forward(self, x):
        for m in self._modules.values():
            x = m(x)
        return x

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        v = list(self._modules.values())
        return Sequential(*v[i]) if isinstance(i, slice) else v[i]

    def append(self, m):
        self.add_module(str(len(self)), m)
        return self


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        for m in ms:
            self.append(m)

    def append(self, m):
        self.add_module(str(len(self._modules)), m)
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        v = list(self._modules.values())
        return ModuleList(v[i]) if isinstance(i, slice) else v[i]


class ModuleDict(Module):
    def __init__(self, ms=None):
        super().__init__()
        for n, m in (ms or {}).items():
            self.add_module(n, m)

    def __getitem__(self, n):
        return self._modules[n]

    def __setitem__(self, n, m):
        self.add_module(n, m)

    def keys(self):
        return self._modules.keys()

    def items(self):
        return self._modules.items()

    def values(self):
        return self._modules.values()


class ParameterList(Module):
    def __init__(self, ps=()):
        super().__init__()
        for p in ps:
            self.append(p)

    def append(self, p):
        self.register_parameter(str(len(self._parameters)), p)
        return self

    def __iter__(self):
        return iter(self._parameters.values())

    def __len__(self):
        return len(self._parameters)

    def __getitem__(self, i):
        return list(self._parameters.values())[i]


def _actmod(name, f):
    class A(Module):
        def __init__(self, *a, **k):
            super().__init__()
            self._args = a
            self._kw = {x: y for x, y in k.items() if x != "inplace"}

        def forward(self, x):
            return f(x, *self._args, **self._kw)
    A.__name__ = A.__qualname__ = name
    A.__module__ = "torch.nn.modules.activation"
    return A


ReLU = _actmod("ReLU", lambda x: f_relu(x))
Tanh = _actmod("Tanh", lambda x: x.tanh())
Sigmoid = _actmod("Sigmoid", lambda x: x.sigmoid())
SiLU = _actmod("SiLU", f_silu)
ELU = _actmod("ELU", f_elu)
LeakyReLU = _actmod("LeakyReLU", f_leaky)
Identity = _actmod("Identity", lambda x, *a, **k: x)
Flatten = _actmod("Flatten", lambda x, s=1, e=-1, **k: x.flatten(s, e))
Softmax = _actmod("Softmax", lambda x, dim=-1: x.softmax(dim))
BCELoss = None


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        super().__init__()
        if not 0 <= p <= 1:
            raise ValueError(f"dropout probability has to be between 0 and 1, but got {p}")
        self.p = p

    def forward(self, x):
        return f_dropout(x, self.p, self.training)


class _Loss(Module):
    def __init__(self, *a, reduction="mean", **k):
        super().__init__()
        self.reduction = reduction

    def forward(self, a, b):
        return type(self).f(a, b, reduction=self.reduction)


class MSELoss(_Loss):
    f = staticmethod(f_mse)


class L1Loss(_Loss):
    f = staticmethod(f_l1)


class BCELoss(_Loss):
    f = staticmethod(f_bce)


class Pool(Module):
    def __init__(self, kernel_size, stride=None, padding=0, **k):
        super().__init__()
        self.a = (kernel_size, stride, padding)


class AvgPool2d(Pool):
    def forward(self, x):
        return f_avg_pool2d(x, *self.a)


class MaxPool2d(Pool):
    def forward(self, x):
        return f_max_pool2d(x, *self.a)


class CircularPad2d(Module):
    mode = "circular"

    def __init__(self, p):
        super().__init__()
        self.p = [p] * 4 if isinstance(p, int) else list(p)

    def forward(self, x):
        return f_pad(x, self.p, self.mode)


class Optimizer:
    """optimisers leave the parameters as they are, unless the harness says what a step does (W.opt_step)"""

    def __init__(self, params, lr=1e-3, **k):
        params = list(params)
        if not params:
            raise ValueError("optimizer got an empty parameter list")
        if isinstance(params[0], dict):
            params = [p for g in params for p in g["params"]]
        self.param_groups = [{"params": params, "lr": lr}]

    def step(self, *a):
        WORLD[0].train_log.append(("step", self.param_groups[0]["params"]))
        if WORLD[0].opt_step is not None:
            with _NoGrad():
                WORLD[0].opt_step(self.param_groups[0]["params"])

    def zero_grad(self, *a, **k):
        WORLD[0].train_log.append(("zero",))

    def state_dict(self):
        return {}


# ---------------------------------------------------------------- module objects
class FakeTorch(types.ModuleType):
    pass


def build(world):
    """returns {module name: module object}"""
    WORLD[0] = world
    GRAD[0] = True
    DEFAULT[0] = DT["float32"]
    t = FakeTorch("torch")
    t.__path__ = []
    g = globals()
    for n in ("Tensor tensor as_tensor from_numpy zeros ones empty full zeros_like ones_like full_like empty_like "
              "arange linspace eye rand randn rand_like randn_like randint randperm normal bernoulli manual_seed cat "
              "concat concatenate stack hstack vstack where matmul einsum tensordot outer maximum minimum isclose "
              "allclose equal meshgrid is_tensor numel Size").split():
        setattr(t, n, g[n])
    for n in METHOD_FUNCS:
        setattr(t, n, _mf(n))
    for n, f in FUNCS.items():
        setattr(t, n, f)
    for n, d in DT.items():
        setattr(t, n, d)
    for n, m in (("float", "float32"), ("double", "float64"), ("half", "float16"), ("long", "int64"), ("int", "int32"),
                 ("short", "int16")):
        setattr(t, n, DT[m])
    t.dtype = DType
    t.device = Device
    t.FloatTensor = Tensor
    t.pi = math.pi
    t.inf = math.inf
    t.nan = math.nan
    t.e = math.e
    t.no_grad = _NoGrad
    t.inference_mode = lambda mode=True: _NoGrad(not mode)
    t.enable_grad = lambda: _NoGrad(True)
    t.set_grad_enabled = lambda v: _SetGrad(v)
    t.is_grad_enabled = lambda: GRAD[0]
    t.get_default_dtype = lambda: DEFAULT[0]
    t.set_default_dtype = lambda d: DEFAULT.__setitem__(0, todt(d))
    t.set_default_tensor_type = lambda d: None
    t.set_num_threads = lambda n: None
    t.get_num_threads = lambda: 1
    t.set_printoptions = lambda **k: None
    t.use_deterministic_algorithms = lambda *a, **k: None
    t.is_floating_point = lambda x: x.dtype.is_floating_point
    t.conv2d = f_conv2d
    t.dropout = f_dropout
    t.nan_to_num = lambda x, nan=0.0, **k: fnumpy.np_nan_to_num(x, nan=nan)
    t.save = world.torch_save
    t.load = world.torch_load
    t.get_rng_state = lambda: world.get_state("torch")
    t.set_rng_state = lambda s: world.set_state("torch", s)
    t.seed = lambda: world.seed("torch", "time")
    t.__version__ = "2.0.1"
    cuda = types.ModuleType("torch.cuda")
    cuda.is_available = lambda: False
    cuda.device_count = lambda: 0
    cuda.manual_seed = cuda.manual_seed_all = lambda s: None
    cuda.synchronize = cuda.empty_cache = lambda *a: None
    t.cuda = cuda
    nn = types.ModuleType("torch.nn")
    nn.__path__ = []
    for n in ("Module Parameter Conv2d Linear Sequential ModuleList ModuleDict ParameterList ReLU Tanh Sigmoid SiLU ELU "
              "LeakyReLU Identity Flatten Softmax Dropout MSELoss L1Loss BCELoss AvgPool2d MaxPool2d "
              "CircularPad2d").split():
        setattr(nn, n, g[n])
    par = types.ModuleType("torch.nn.parameter")
    par.Parameter = Parameter
    nn.parameter = par
    F = types.ModuleType("torch.nn.functional")
    for n, f in (("conv2d", f_conv2d), ("pad", f_pad), ("avg_pool2d", f_avg_pool2d), ("max_pool2d", f_max_pool2d),
                 ("relu", f_relu), ("leaky_relu", f_leaky), ("silu", f_silu), ("elu", f_elu), ("dropout", f_dropout),
                 ("linear", f_linear), ("mse_loss", f_mse), ("l1_loss", f_l1), ("binary_cross_entropy", f_bce),
                 ("interpolate", f_interpolate), ("softmax", f_softmax),
                 ("tanh", lambda x: x.tanh()), ("sigmoid", lambda x: x.sigmoid())):
        setattr(F, n, f)
    nn.functional = F
    init = types.ModuleType("torch.nn.init")
    init.zeros_ = lambda x: x.detach().fill_(0.0)
    init.ones_ = lambda x: x.detach().fill_(1.0)
    init.constant_ = lambda x, v: x.detach().fill_(v)
    for n in ("kaiming_uniform_", "xavier_uniform_", "kaiming_normal_", "xavier_normal_"):
        setattr(init, n, lambda x, *a, **k: x)
    init.uniform_ = lambda x, a=0.0, b=1.0: x.detach().uniform_(a, b)
    init.normal_ = lambda x, a=0.0, b=1.0: x.detach().normal_(a, b)
    nn.init = init
    ut = types.ModuleType("torch.nn.utils")
    ut.clip_grad_norm = ut.clip_grad_norm_ = ut.clip_grad_value_ = lambda ps, *a, **k: tensor(0.0)
    nn.utils = ut
    t.nn = nn
    optim = types.ModuleType("torch.optim")
    for n in ("Adam", "SGD", "AdamW", "RMSprop"):
        setattr(optim, n, type(n, (Optimizer,), {}))
    t.optim = optim
    t.random = types.SimpleNamespace(manual_seed=manual_seed)
    bk = types.SimpleNamespace(cudnn=types.SimpleNamespace(deterministic=False, benchmark=False))
    t.backends = bk
    t.linalg = types.SimpleNamespace(norm=lambda x, ord=None, dim=None, keepdim=False: x.norm(2 if ord is None else ord, dim, keepdim))
    return {"torch": t, "torch.nn": nn, "torch.nn.functional": F, "torch.nn.parameter": par, "torch.nn.init": init,
            "torch.optim": optim, "torch.cuda": cuda, "torch.nn.utils": ut}


class _SetGrad(_NoGrad):
    def __init__(self, v):
        self.v = v
        self.old = GRAD[0]
        GRAD[0] = v

    def __enter__(self):
        pass

    def __exit__(self, *a):
        GRAD[0] = self.old


bool = builtins.bool
