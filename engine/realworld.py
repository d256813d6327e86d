"""Concrete world: the repository's own interpreter, torch and numpy.

Used to replay solver counterexamples.  The code under test is imported from a
scratch copy of /repo, so file-system effects stay inside the copy; shell and
subprocess calls are recorded, not executed.  Random draws come from the
counterexample (same naming scheme as in the symbolic world).
"""
import importlib
import io
import math
import os
import posixpath
import random
import shutil
import sys
import tempfile
import types

from .wbase import WBase, StopPath, AssumeFailed, flatten, nest, hash01, prod, shape_of
from .wbase import default_cmap, dir_order

real_listdir = os.listdir


def default_val(lo, hi):
    lo2 = lo if lo != -math.inf else (hi - 1 if hi != math.inf else 0.0)
    hi2 = hi if hi != math.inf else lo2 + 1
    return min(max(0.0, lo2), hi2)


class RealWorld(WBase):
    concrete = True

    def __init__(self, env=None, benv=None, src=os.environ.get("VERIF_REPO", "/repo")):
        self._init_base()
        self.env = env or {}
        self.benv = benv or {}
        self.failures = []
        self.n_checks = 0
        self.tmp = tempfile.mkdtemp(prefix="yuca_replay_")
        self.root = os.path.join(self.tmp, "repo")
        shutil.copytree(src, self.root, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "notebooks", "docs", "__pycache__"))
        os.chdir(self.root)
        sys.path.insert(0, self.root)
        self._patch()

    def cleanup(self):
        os.chdir("/")
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------- variables
    def real(self, name, lo, hi):
        v = self.env.get(name)
        return float(v) if v is not None else float(default_val(lo, hi))

    def int(self, name, lo, hi):
        v = self.env.get(name)
        return int(round(v)) if v is not None else int(default_val(lo, hi))

    def bool(self, name):
        return bool(self.benv.get(name, False))

    def rng_value(self, nm, lo, hi, kind, isint):
        return self.int(nm, lo, hi) if isint else self.real(nm, lo, hi)

    # ------------------------------------------------------------- conditions
    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def check(self, c, label, info=""):
        self.n_checks += 1
        self.trace.append((label, bool(c)))
        if not bool(c):
            self.failures.append((label, str(info)[:300]))

    def _close(self, fa, fb, tol, label):
        self.n_checks += 1
        self.trace.append((label, [num_or_none(x) for x in fa], [num_or_none(x) for x in fb]))
        bad = []
        for i, (x, y) in enumerate(zip(fa, fb)):
            if x is None or y is None:
                if x is not y:
                    bad.append((i, x, y))
                continue
            if not abs(float(x) - float(y)) <= 0.5 * tol:
                bad.append((i, float(x), float(y)))
        if bad:
            self.failures.append((label, f"{len(bad)} of {len(fa)} values differ; first (index, got, expected): {bad[:3]}"))

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def max_all(self, xs):
        return max(float(x) for x in xs)

    def min_all(self, xs):
        return min(float(x) for x in xs)

    def clamp(self, x, lo, hi):
        if lo is not None:
            x = max(x, lo)
        if hi is not None:
            x = min(x, hi)
        return x

    def div(self, a, b):
        return a / b if b != 0 else float("nan")

    def exp(self, x):
        return math.exp(x) if x < 700 else math.inf
    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else math.nan)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    tanh = staticmethod(math.tanh)
    log = staticmethod(lambda x: math.log(x) if x > 0 else math.nan)
    log2 = staticmethod(lambda x: math.log2(x) if x > 0 else math.nan)
    floor = staticmethod(lambda x: float(math.floor(x)))

    def sigmoid(self, x):
        return 1.0 / (1.0 + math.exp(-x)) if x > -700 else 0.0

    def decided(self, c):
        return bool(c)

    # ------------------------------------------------------------- data
    def tensor(self, x, dtype="float32"):
        return self._tensor(x, dtype=getattr(self.torch, dtype))

    def nparray(self, x, dtype="float64"):
        return self.np.array(x, dtype=dtype)

    def L(self, x):
        if isinstance(x, self.torch.Tensor):
            return x.detach().tolist()
        if isinstance(x, self.np.ndarray):
            return x.tolist()
        if isinstance(x, (list, tuple)):
            return [self.L(y) for y in x]
        if isinstance(x, self.np.generic):
            return x.item()
        return x

    def shape(self, x):
        return tuple(int(s) for s in x.shape)

    def imp(self, name):
        return importlib.import_module(name)

    # ------------------------------------------------------------- files
    def abs(self, p):
        p = str(p)
        return posixpath.normpath(p if p.startswith("/") else posixpath.join(self.root, p))

    def exists(self, p):
        return os.path.exists(self.abs(p))

    def isfile(self, p):
        return os.path.isfile(self.abs(p))

    def isdir(self, p):
        return os.path.isdir(self.abs(p))

    def listdir(self, p="."):
        return dir_order(real_listdir(self.abs(p)))

    def makedirs(self, p, exist_ok=False):
        os.makedirs(self.abs(p), exist_ok=exist_ok)
    mkdir = makedirs

    def write_text(self, p, s):
        with open(self.abs(p), "w") as f:
            f.write(s)

    def read_text(self, p):
        with open(self.abs(p)) as f:
            return f.read()

    def remove(self, p):
        os.remove(self.abs(p))

    def np_save(self, p, a, **k):
        self.np.save(self.abs(p), a)

    def np_load(self, p, **k):
        return self.np.load(self.abs(p), **k)

    # ------------------------------------------------------------- patches
    def _patch(self):
        import numpy as np
        import torch
        self.np, self.torch = np, torch
        w = self
        T = torch.Tensor
        npdt = {torch.float16: np.float16, torch.float32: np.float32, torch.float64: np.float64, torch.int64: np.int64,
                torch.int32: np.int32, torch.int16: np.int16, torch.int8: np.int8, torch.uint8: np.uint8,
                torch.bool: np.bool_}
        rev = {np.dtype(v): k for k, v in npdt.items()}
        raw_tensor = torch.tensor

        def unnp(x):
            if isinstance(x, np.ndarray):
                return x.tolist()
            if isinstance(x, np.generic):
                return x.item()
            if isinstance(x, (list, tuple)):
                return [unnp(y) for y in x]
            return x

        def tensor(data, *a, dtype=None, **k):
            if dtype is None:
                if isinstance(data, (np.ndarray, np.generic)):
                    dtype = rev.get(np.asarray(data).dtype)
                elif isinstance(data, (list, tuple)) and len(data) and isinstance(data[0], np.ndarray):
                    dtype = rev.get(np.asarray(data).dtype)
            if isinstance(data, T):
                return raw_tensor(data, *a, dtype=dtype, **k)
            return raw_tensor(unnp(data), *a, dtype=dtype, **k)
        self._tensor = tensor
        torch.tensor = tensor

        def numpy(self, *a, **k):
            if self.requires_grad:
                raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
            return np.array(self.tolist(), dtype=npdt[self.dtype]).reshape(tuple(self.shape))
        T.numpy = numpy

        def __array__(self, dtype=None):
            r = numpy(self)
            return r if dtype is None else r.astype(dtype)
        T.__array__ = __array__

        def __array_wrap__(self, a, *x):
            if a.dtype == bool:
                a = a.astype("uint8")
            return from_numpy(a)
        T.__array_wrap__ = __array_wrap__

        def from_numpy(a):
            if not isinstance(a, np.ndarray):
                raise TypeError(f"expected np.ndarray (got {type(a).__name__})")
            return raw_tensor(a.tolist(), dtype=rev[a.dtype]).reshape(a.shape)
        torch.from_numpy = from_numpy

        def as_tensor(d, dtype=None, device=None):
            if isinstance(d, T):
                return d.to(dtype) if dtype is not None else d
            return tensor(d, dtype=dtype)
        torch.as_tensor = as_tensor

        # item assignment from numpy values
        raw_set = T.__setitem__

        def setitem(self, k, v):
            if isinstance(v, np.ndarray):
                v = tensor(v)
            elif isinstance(v, np.generic):
                v = v.item()
            return raw_set(self, k, v)
        T.__setitem__ = setitem

        # -- torch randomness
        def fl(shape, lo, hi, kind, isint=False):
            return w.rng_flat("torch", tuple(shape), lo, hi, kind, isint)

        def shp(s):
            if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)):
                s = s[0]
            return tuple(int(x) for x in s)

        def mkr(lo, hi, kind):
            def f(*s, dtype=None, device=None, generator=None, requires_grad=False, size=None, **k):
                sh = shp(s if size is None else (size,))
                t = raw_tensor(fl(sh, lo, hi, kind), dtype=dtype or torch.get_default_dtype()).reshape(sh)
                return t.requires_grad_() if requires_grad else t
            return f
        torch.rand = mkr(0.0, 1.0, "u")
        torch.randn = mkr(-6.0, 6.0, "n")
        torch.rand_like = lambda x, dtype=None, **k: torch.rand(*x.shape, dtype=dtype or x.dtype)
        torch.randn_like = lambda x, dtype=None, **k: torch.randn(*x.shape, dtype=dtype or x.dtype)

        def randint(low, high=None, size=None, dtype=None, **k):
            if size is None:
                low, high, size = 0, low, high
            return raw_tensor(fl(tuple(size), int(low), int(high) - 1, "i", True), dtype=dtype or torch.int64).reshape(tuple(size))
        torch.randint = randint

        def seed_t(s):
            w.seed("torch", s)
        torch.manual_seed = seed_t
        torch.seed = lambda: w.seed("torch", "time")
        torch.get_rng_state = lambda: w.get_state("torch")
        torch.set_rng_state = lambda s: w.set_state("torch", s)
        torch.randperm = lambda n, **k: raw_tensor(w.choice_idx(n, n, False))

        def bern(p, **k):
            u = raw_tensor(fl(p.shape, 0.0, 1.0, "u")).reshape(p.shape)
            return (u < p).to(p.dtype)
        torch.bernoulli = bern
        torch.normal = lambda mean=0.0, std=1.0, size=None, **k: torch.randn(
            *(size if size is not None else (mean if isinstance(mean, T) else std).shape)) * std + mean

        def uniform_(self, a=0.0, b=1.0, **k):
            u = raw_tensor(fl(self.shape, 0.0, 1.0, "u")).reshape(self.shape)
            with torch.no_grad():
                self.copy_(u * (b - a) + a)
            return self
        T.uniform_ = uniform_

        def normal_(self, mean=0, std=1, **k):
            u = raw_tensor(fl(self.shape, -6.0, 6.0, "n")).reshape(self.shape)
            with torch.no_grad():
                self.copy_(u * std + mean)
            return self
        T.normal_ = normal_

        # layer initialisation
        def init(shape, bound):
            return raw_tensor([bound * x for x in w.init_flat(prod(shape))]).reshape(tuple(shape))

        def reset(self):
            sh = tuple(self.weight.shape)
            b = 1.0 / math.sqrt(max(prod(sh[1:]), 1))
            with torch.no_grad():
                self.weight.copy_(init(sh, b))
                if self.bias is not None:
                    self.bias.copy_(init(tuple(self.bias.shape), b))
        torch.nn.modules.conv._ConvNd.reset_parameters = reset
        torch.nn.Linear.reset_parameters = reset

        class NoOpt:
            def __init__(self, params, lr=1e-3, **k):
                params = list(params)
                if not params:
                    raise ValueError("optimizer got an empty parameter list")
                if isinstance(params[0], dict):
                    params = [p for g in params for p in g["params"]]
                self.param_groups = [{"params": params, "lr": lr}]

            def step(self, *a):
                w.train_log.append(("step", self.param_groups[0]["params"]))
                if w.opt_step is not None:
                    with torch.no_grad():
                        w.opt_step(self.param_groups[0]["params"])

            def zero_grad(self, *a, **k):
                for q in self.param_groups[0]["params"]:
                    q.grad = None
                w.train_log.append(("zero",))

            def state_dict(self):
                return {}
        for n in ("Adam", "SGD", "AdamW", "RMSprop"):
            setattr(torch.optim, n, type(n, (NoOpt,), {}))

        def dropout(x, p=0.5, training=True, inplace=False):
            if not training or p == 0:
                return x
            u = raw_tensor(fl(x.shape, 0.0, 1.0, "u")).reshape(x.shape)
            return torch.where(u < p, torch.zeros_like(x), x / (1 - p))
        torch.nn.functional.dropout = dropout

        back, zero = T.backward, torch.nn.Module.zero_grad

        busy = []

        def backward(self, *a, **k):
            if busy:             # called again by torch itself (under a device context)
                return back(self, *a, **k)
            busy.append(1)
            try:
                r = back(self, *a, **k)
            finally:
                busy.pop()
            w.train_log.append(("backward", self.detach().clone()))
            return r
        T.backward = backward

        def zero_grad(self, *a, **k):
            w.train_log.append(("zero",))
            return zero(self, *a, **k)
        torch.nn.Module.zero_grad = zero_grad

        # -- numpy randomness
        R = np.random

        def arr(shape, lo, hi, kind, isint=False):
            v = w.rng_flat("np", tuple(shape), lo, hi, kind, isint)
            if shape == ():
                return v[0]
            return np.array(v, dtype=np.int64 if isint else np.float64).reshape(shape)

        def size_(s):
            return () if s is None else ((int(s),) if isinstance(s, (int, np.integer)) else tuple(int(x) for x in s))
        R.seed = lambda s=None: w.seed("np", s)
        R.rand = lambda *s: arr(size_(s), 0.0, 1.0, "u")
        R.random = R.random_sample = R.ranf = lambda size=None: arr(size_(size), 0.0, 1.0, "u")
        R.uniform = lambda low=0.0, high=1.0, size=None: arr(size_(size), 0.0, 1.0, "u") * (high - low) + low
        R.randn = lambda *s: arr(size_(s), -6.0, 6.0, "n")
        R.standard_normal = lambda size=None: arr(size_(size), -6.0, 6.0, "n")

        def normal(loc=0.0, scale=1.0, size=None):
            sh = size_(size) if size is not None else np.broadcast(loc, scale).shape
            return arr(sh, -6.0, 6.0, "n") * scale + loc
        R.normal = normal

        def nrandint(low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            return arr(size_(size), int(low), int(high) - 1, "i", True)
        R.randint = nrandint

        def mvn(mean, cov, size=None, **k):
            mean, cov = np.asarray(mean), np.asarray(cov)
            n = mean.shape[0]
            if cov.shape != (n, n):
                raise ValueError("mean and cov must have same length")
            cnt = 1 if size is None else prod(size_(size))
            rows = []
            for _ in range(cnt):
                z = w.rng_flat("np", (n,), -6.0, 6.0, "n")
                rows.append([float(mean[i]) + z[i] for i in range(n)])
                w.calls.append(("mvn", mean.tolist(), cov.tolist(), list(rows[-1])))
            return np.array(rows[0] if size is None else rows)
        R.multivariate_normal = mvn

        def choice(a, size=None, replace=True, p=None):
            items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
            sh = size_(size)
            pl = None
            if p is not None:
                pl = [float(x) for x in np.asarray(p).ravel()]
                w.calls.append(("choice_p", pl))
                if len(pl) != len(items):
                    raise ValueError("'a' and 'p' must have same size")
                if abs(sum(pl) - 1) > 1e-6 or any(x < 0 for x in pl):
                    raise ValueError("probabilities do not sum to 1")
            ix = w.choice_idx(len(items), prod(sh), replace, pl)
            w.calls.append(("choice", items, pl, bool(replace), list(ix)))
            r = [items[i] for i in ix]
            return r[0] if size is None else np.array(r).reshape(sh)
        R.choice = choice
        R.permutation = lambda a: choice(a, a if isinstance(a, int) else len(a), False)

        def nshuffle(a):
            p = w.choice_idx(len(a), len(a), False)
            vals = [a[i].copy() if hasattr(a[i], "copy") else a[i] for i in p]
            for i, v in enumerate(vals):
                a[i] = v
        R.shuffle = nshuffle
        R.get_state = lambda: ("state", w.get_state("np"))
        R.set_state = lambda s: w.set_state("np", s[1])

        # -- stdlib random
        def shuffle(a):
            ix = w.choice_idx(len(a), len(a), False)
            vals = [a[i] for i in ix]
            for i, v in enumerate(vals):
                a[i] = v
        random.shuffle = shuffle
        random.seed = lambda s=None: w.seed("py", s)
        one = lambda lo, hi, kind="u", isint=False: w.rng_flat("py", (), lo, hi, kind, isint)[0]
        random.random = lambda: one(0.0, 1.0)
        random.uniform = lambda a, b: one(0.0, 1.0) * (b - a) + a
        random.randint = lambda a, b: one(a, b, "i", True)
        random.randrange = lambda a, b=None: one(0 if b is None else a, (a if b is None else b) - 1, "i", True)
        random.gauss = random.normalvariate = lambda m=0.0, s=1.0: one(-6.0, 6.0, "n") * s + m
        random.choice = lambda xs: xs[w.choice_idx(len(xs), 1, True)[0]]
        random.sample = lambda xs, k: [list(xs)[i] for i in w.choice_idx(len(xs), k, False)]

        # -- processes, shell, time
        import subprocess
        import time

        def system(cmd):
            w.calls.append(("os.system", cmd))
            w.on_system(cmd)
            return 0
        os.system = system
        os.listdir = lambda p=".": dir_order(real_listdir(p))
        import glob
        glob.glob = lambda p, **k: w.glob(p)

        def _exit(n):
            w.calls.append(("os._exit", n))
            raise SystemExit(n)
        os._exit = _exit
        os.getenv = lambda k, d=None: w.environ.get(k, d)

        def rec(n, ret):
            def f(*a, **k):
                w.calls.append((n, a, k))
                if a and n != "subprocess.Popen":
                    w.on_system(a[0])
                return ret
            return f
        subprocess.check_output = rec("subprocess.check_output", b"0123456789abcdef0123456789abcdef01234567\n")
        subprocess.check_call = rec("subprocess.check_call", 0)
        subprocess.call = rec("subprocess.call", 0)
        subprocess.run = rec("subprocess.run", types.SimpleNamespace(returncode=0, stdout=b""))
        subprocess.Popen = rec("subprocess.Popen", None)

        def tick():
            w.clock += 0.25
            return w.clock
        time.time = time.perf_counter = time.monotonic = tick
        time.sleep = lambda s: None
        sys.argv = self.argv

        def exit_(n=0):
            w.calls.append(("sys.exit", n))
            raise SystemExit(n)
        self._exit = exit_

        # -- plotting and images: same stand-ins as in the symbolic world
        class CMap:
            N = 256

            def __call__(self, x, *a, **k):
                if isinstance(x, T):
                    x = x.numpy()
                if isinstance(x, (int, float)):
                    return tuple(w.cmap(x))
                x = np.asarray(x)
                out = np.empty(x.shape + (4,))
                for ix in np.ndindex(*x.shape):
                    out[ix] = w.cmap(float(x[ix]))
                return out
        os.environ["MPLBACKEND"] = "Agg"
        os.environ.setdefault("MPLCONFIGDIR", self.tmp)
        plt = StubMod("matplotlib.pyplot", w)
        plt.get_cmap = lambda n=None, *a: CMap()
        mpl = StubMod("matplotlib", w)
        mpl.pyplot = plt
        cm = StubMod("matplotlib.cm", w)
        cm.get_cmap = plt.get_cmap
        for n in ("magma", "viridis", "plasma", "inferno", "gray"):
            setattr(cm, n, CMap())
        mpl.cm = cm
        plt.cm = cm
        sk, skio, skt = StubMod("skimage", w), StubMod("skimage.io", w), StubMod("skimage.transform", w)
        sk.io, sk.transform = skio, skt
        self.files = {}

        def imsave(p, im, *a, **k):
            p = w.abs(p)
            if not os.path.isdir(os.path.dirname(p)):
                raise FileNotFoundError(2, "No such file or directory", p)
            with open(p, "w") as f:
                f.write("img")
            w.files[p] = np.array(im)
            w.calls.append(("imsave", p))
        skio.imsave = imsave
        skio.imread = lambda p, *a, **k: w.files[w.abs(p)].copy()
        pil, pimg = StubMod("PIL", w), StubMod("PIL.Image", w)

        class Img:
            def __init__(self, path):
                self.path = path
                self.data = w.files[path]

            def save(self, p, **k):
                p = w.abs(p)
                w.calls.append(("gif", p, [x.path for x in k.get("append_images", [])], self.path, k.get("duration"),
                                k.get("loop"), k.get("save_all")))
                with open(p, "w") as f:
                    f.write("gif")
                w.files[p] = [self] + list(k.get("append_images", []))

        def iopen(p):
            p = w.abs(p)
            if p not in w.files or not os.path.exists(p):
                raise FileNotFoundError(2, "No such file or directory", p)
            return Img(p)
        pimg.open = iopen
        pil.Image = pimg
        mpi, m4 = StubMod("mpi4py.MPI", w), StubMod("mpi4py", w)
        m4.MPI = mpi

        mpi.COMM_WORLD = w.comm
        for n, m in (("matplotlib", mpl), ("matplotlib.pyplot", plt), ("matplotlib.cm", cm), ("skimage", sk),
                     ("skimage.io", skio), ("skimage.transform", skt), ("PIL", pil), ("PIL.Image", pimg),
                     ("mpi4py", m4), ("mpi4py.MPI", mpi)):
            sys.modules[n] = m
        for n in ("bokeh", "bokeh.io", "bokeh.io.doc", "bokeh.plotting", "bokeh.models", "bokeh.layouts", "bokeh.events",
                  "bokeh.models.widgets", "imageio"):
            sys.modules[n] = StubMod(n, w)
        for n in list(sys.modules):
            if "." in n:
                par, _, leaf = n.rpartition(".")
                if isinstance(sys.modules[n], StubMod) and par in sys.modules and isinstance(sys.modules[par], StubMod):
                    if leaf not in sys.modules[par].__dict__:
                        setattr(sys.modules[par], leaf, sys.modules[n])
        sys.modules["pdb"] = StubMod("pdb", w)
        import builtins
        builtins.print = lambda *a, **k: None

    def saved_gif(self, p):
        return self.files[p]

    def rmtree(self, d):
        d = os.path.realpath(self.abs(d))
        if d.startswith(self.root + "/"):
            shutil.rmtree(d)

    def run_main(self, path, argv):
        import runpy
        sys.argv[:] = [path] + list(argv)
        return runpy.run_path(path, run_name="__main__")


def num_or_none(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


class Stub:
    def __init__(self, n, w):
        self.__dict__["_n"], self.__dict__["_w"] = n, w

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        s = Stub(f"{self._n}.{a}", self._w)
        self.__dict__[a] = s
        return s

    def __call__(self, *a, **k):
        self._w.calls.append((self._n, a, k))
        return Stub(self._n + "()", self._w)

    def __iter__(self):
        return iter([Stub(self._n + "[0]", self._w), Stub(self._n + "[1]", self._w)])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getitem__(self, i):
        return Stub(f"{self._n}[{i}]", self._w)

    def __setitem__(self, i, v):
        pass

    def __add__(self, o):
        return self


class StubMod(types.ModuleType):
    def __init__(self, n, w):
        super().__init__(n)
        self.__path__ = []
        self.__dict__["_w"] = w
        self.__spec__ = None

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        s = Stub(f"{self.__name__}.{a}", self._w)
        self.__dict__[a] = s
        return s
