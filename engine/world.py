"""Symbolic world: every module the code under test may touch, as fakes."""
import builtins
import copy
import io
import math
import os as real_os
import posixpath
import time
import types

import numpy as np

from . import arr, fnumpy, ftorch, sym
from .sym import SVal, SBool, Unsupported
from .wbase import WBase, StopPath, flatten, nest, hash01, prod, shape_of, chunks, dir_order

ROOT = real_os.environ.get("VERIF_REPO", "/repo")


class Stub:
    """permissive recorder: attribute access and calls return stubs"""

    def __init__(self, world, name):
        self.__dict__["_w"] = world
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        s = Stub(self._w, f"{self._n}.{a}")
        self.__dict__[a] = s
        return s

    def __call__(self, *a, **k):
        self._w.calls.append((self._n, a, k))
        return Stub(self._w, self._n + "()")

    def __iter__(self):
        return iter([Stub(self._w, self._n + "[0]"), Stub(self._w, self._n + "[1]")])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getitem__(self, i):
        return Stub(self._w, f"{self._n}[{i}]")

    def __setitem__(self, i, v):
        pass

    def __add__(self, o):
        return self


class CMap:
    def __init__(self, world, name):
        self.w = world
        self.name = name
        self.N = 256

    def __call__(self, x, *a, **k):
        if isinstance(x, ftorch.Tensor):
            if x.requires_grad:
                raise RuntimeError("Can't call numpy() on Tensor that requires grad.")
            x = x.numpy()
        if isinstance(x, (int, float, SVal)) and not isinstance(x, bool):
            return tuple(self.w.cmap(x))
        a = fnumpy.raw(fnumpy.asarray(x))
        out = np.empty(a.shape + (4,), dtype=object)
        for ix in np.ndindex(*a.shape):
            out[ix] = np.array(self.w.cmap(a[ix]), dtype=object)
        return fnumpy.wrap(out)


class StubModule(types.ModuleType):
    def __init__(self, world, name):
        super().__init__(name)
        self.__dict__["_w"] = world
        self.__path__ = []
        self.__file__ = f"<fake {name}>"

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        s = Stub(self._w, f"{self.__name__}.{a}")
        self.__dict__[a] = s
        return s


class TextFile(io.StringIO):
    def __init__(self, world, path, text, mode):
        super().__init__(text if "w" not in mode else "")
        self._wd, self._path, self._mode = world, path, mode
        if "a" in mode:
            self.seek(0, 2)
        self.name = path

    def write(self, s):
        if "w" not in self._mode and "a" not in self._mode and "+" not in self._mode:
            raise io.UnsupportedOperation("not writable")
        r = super().write(s)
        self._wd.vfs[self._path] = ("text", self.getvalue())
        return r

    def close(self):
        if not self.closed and ("w" in self._mode or "a" in self._mode):
            self._wd.vfs[self._path] = ("text", self.getvalue())
        super().close()


class SymWorld(WBase):
    """`ctl` is the path controller (explore.PathCtl) or None in concrete-fake mode"""

    def __init__(self, ctl=None, env=None, benv=None):
        self._init_base()
        self.ctl = ctl
        self.env = env           # concrete-fake mode: constants for variables
        self.benv = benv
        self.vfs = {}            # abs path -> (kind, payload)
        self.vdirs = set()
        self.removed = set()
        self.root = ROOT
        self.loader = None
        self.mods = {}
        self._build_modules()

    # ------------------------------------------------------------- variables
    def real(self, name, lo, hi):
        if self.env is not None:
            v = self.env.get(name)
            return float(v) if v is not None else default_val(lo, hi)
        return sym.var(name, float(lo), float(hi))

    def int(self, name, lo, hi):
        if self.env is not None:
            v = self.env.get(name)
            return int(round(v)) if v is not None else int(default_val(lo, hi))
        if lo == hi:
            return int(lo)
        return sym.var(name, lo, hi, True)

    def bool(self, name):
        if self.env is not None:
            return bool((self.benv or {}).get(name, False))
        return sym.boolvar(name)

    def rng_value(self, nm, lo, hi, kind, isint):
        if isint:
            return self.int(nm, lo, hi)
        if kind == "u":
            hi = hi - 1e-6
        return self.real(nm, lo, hi)

    def rng_array(self, lib, shape, lo, hi, kind, isint=False):
        shape = tuple(shape)
        fl = self.rng_flat(lib, shape, lo, hi, kind, isint)
        return arr.from_flat(fl, shape)

    def init_array(self, shape, bound):
        return arr.from_flat([bound * x for x in self.init_flat(prod(shape))], tuple(shape))

    def opaque(self, kind, shape):
        self.init_ctr += 1
        return arr.from_flat([self.real(f"opaque:{kind}:{self.init_ctr}:{i}", 0.0, 100.0) for i in range(prod(shape))],
                             tuple(shape))

    def mvn(self, m, c, size=None):
        n = m.shape[0]
        if size is not None:
            cnt = size if isinstance(size, int) else prod(size)
        else:
            cnt = 1
        rows = []
        for _ in range(cnt):
            z = self.rng_flat("np", (n,), -6.0, 6.0, "n")
            mm = fnumpy.raw(m)
            cc = fnumpy.raw(c)
            rows.append([sym_add(mm[i], z[i]) for i in range(n)])
            self.calls.append(("mvn", [mm[i] for i in range(n)], [[cc[i, j] for j in range(n)] for i in range(n)], rows[-1]))
        if size is None:
            return fnumpy.wrap(arr.from_flat(rows[0], (n,)))
        return fnumpy.wrap(arr.from_flat([x for r in rows for x in r], (cnt, n)))

    def choice(self, a, size=None, replace=True, p=None):
        items = list(builtins.range(a)) if isinstance(a, (int, np.integer)) else list(a)
        sh = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
        pw = None
        if p is not None:
            pl = fnumpy.raw(fnumpy.asarray(p))
            pw = list(pl.ravel())
            if len(pw) != len(items):
                raise ValueError("'a' and 'p' must have same size")
            self.calls.append(("choice_p", pw))
            if any(isinstance(x, (SVal, SBool)) for x in pw):
                raise Unsupported("choice with symbolic weights")
            if abs(sum(pw) - 1) > 1e-6 or any(x < 0 for x in pw):
                raise ValueError("probabilities do not sum to 1")
        ix = self.choice_idx(len(items), prod(sh), replace, pw)
        self.calls.append(("choice", items, pw, bool(replace), list(ix)))
        r = [items[i] for i in ix]
        if size is None:
            return r[0]
        tag = "int64" if all(isinstance(x, (int, np.integer)) for x in items) else "float64"
        if tag == "int64":
            return np.array([int(x) for x in r], dtype=np.int64).reshape(sh)
        return fnumpy.wrap(arr.from_flat(r, sh), tag)

    # ------------------------------------------------------------- conditions
    def assume(self, c):
        if self.ctl is None:
            if not bool(c):
                from .wbase import AssumeFailed
                raise AssumeFailed()
            return
        self.ctl.assume(c)

    def check(self, c, label, info=""):
        if self.ctl is None:
            self.trace.append((label, bool(c)))
            return
        self.ctl.check(c, label, info)

    def _close(self, fa, fb, tol, label):
        if self.ctl is None:
            self.trace.append((label, [num_or_none(x) for x in fa], [num_or_none(x) for x in fb]))
            return
        self.ctl.n_seen += 1
        bad, same = [], []
        memo, end = {}, time.time() + 15.0
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not isinstance(x, (SVal, SBool)) and not isinstance(y, (SVal, SBool)):
                if x is None or y is None:
                    if x is not y:
                        bad.append((i, True))
                    continue
                if not abs(float(x) - float(y)) <= tol:
                    bad.append((i, True))
                continue
            x, y = sym.num(x), sym.num(y)
            d = x - y
            if not isinstance(d, SVal) and abs(d) <= tol and sym.nanc(x) is False and sym.nanc(y) is False:
                same.append((i, x, y))
                continue
            sym.RAW[0] = True
            c = self.and_(sym.cmp_("le", d, tol), sym.cmp_("ge", d, -tol))
            sym.RAW[0] = False
            if c is not True:
                if memo is not None and isinstance(d, SVal) and sym.has_def(d) and sym.nanc(x) is False and sym.nanc(y) is False:
                    try:
                        x2, y2 = sym.expand(x, memo, end), sym.expand(y, memo, end)
                        lo, hi = sym.slack(*sym.interval(sym.num(x2 - y2)))
                        if -tol <= lo and hi <= tol:
                            same.append((i, x2, y2))
                            continue
                    except sym.Budget:
                        memo = None
                bad.append((i, sym.bnot(c)))
        for ch in chunks(same, 64):
            if not self.ctl.identity([(x, y) for _, x, y in ch], tol):
                for i, x, y in ch:
                    bad.append((i, sym.bnot(self.and_(x - y <= tol, x - y >= -tol))))
        for ch in chunks(bad, self.ctl.chunk):
            neg = sym.bany([b for _, b in ch])
            self.ctl.check(sym.bnot(neg), label, info=f"elements {[i for i, _ in ch][:8]}", counted=True)

    def raw(self, on):
        sym.RAW[0] = on

    def and_(self, *xs):
        r = True
        for x in xs:
            r = sym.band(r, tobool(x))
        return r

    def or_(self, *xs):
        r = False
        for x in xs:
            r = sym.bor(r, tobool(x))
        return r

    def not_(self, x):
        return sym.bnot(tobool(x))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return sym.biff(tobool(a), tobool(b))

    def ite(self, c, a, b):
        c = tobool(c)
        if isinstance(c, bool):
            return a if c else b
        return sym.ite(c, sym.num(a), sym.num(b))

    def max(self, a, b):
        return sym.smax(a, b)

    def min(self, a, b):
        return sym.smin(a, b)

    def max_all(self, xs):
        return sym.smax_all(xs)

    def min_all(self, xs):
        return sym.smin_all(xs)

    def clamp(self, x, lo, hi):
        return sym.sclamp(x, lo, hi)

    def div(self, a, b):
        return sym.sdiv(a, b)

    exp = staticmethod(lambda x: sym.sexp(x))
    sqrt = staticmethod(lambda x: sym.ssqrt(x))
    sin = staticmethod(lambda x: sym.ssin(x))
    cos = staticmethod(lambda x: sym.scos(x))
    tanh = staticmethod(lambda x: sym.stanh(x))
    sigmoid = staticmethod(lambda x: sym.ssigmoid(x))
    log = staticmethod(lambda x: sym.slog(x))
    log2 = staticmethod(lambda x: sym.slog2(x))
    floor = staticmethod(lambda x: sym.sfloor(x))

    def decided(self, c):
        """branch on c (explores both outcomes)"""
        return bool(c)

    # ------------------------------------------------------------- data
    def tensor(self, x, dtype="float32"):
        return ftorch.tensor(x, dtype=ftorch.DT[dtype])

    def nparray(self, x, dtype="float64"):
        return fnumpy.np_array(x, dtype=dtype)

    def L(self, x):
        """nested lists of python/symbolic scalars"""
        if isinstance(x, ftorch.Tensor):
            a = x._a
            return nest([scal_(v) for v in a.ravel()], a.shape)
        if isinstance(x, np.ndarray):
            return nest([scal_(v) for v in np.asarray(fnumpy.raw(x)).ravel()], x.shape)
        if isinstance(x, (list, tuple)):
            return [self.L(y) for y in x]
        return scal_(x)

    def shape(self, x):
        return tuple(int(s) for s in x.shape)

    @property
    def torch(self):
        return self.mods["torch"]

    @property
    def np(self):
        return self.mods["numpy"]

    def imp(self, name):
        return self.loader.imp(name)

    # ------------------------------------------------------------- file system
    def abs(self, p):
        p = str(p)
        return posixpath.normpath(p if p.startswith("/") else posixpath.join(self.root, p))

    def _real_ok(self, p):
        return (p == ROOT or p.startswith(ROOT + "/")) and p not in self.removed

    def exists(self, p):
        p = self.abs(p)
        return p in self.vfs or p in self.vdirs or (self._real_ok(p) and real_os.path.exists(p))

    def isdir(self, p):
        p = self.abs(p)
        return p in self.vdirs or p == "/" or (self._real_ok(p) and real_os.path.isdir(p))

    def isfile(self, p):
        p = self.abs(p)
        return p in self.vfs or (self._real_ok(p) and real_os.path.isfile(p))

    def listdir(self, p="."):
        p = self.abs(p)
        if not self.isdir(p):
            raise FileNotFoundError(2, "No such file or directory", p)
        out = set()
        if self._real_ok(p) and real_os.path.isdir(p):
            out |= {x for x in real_os.listdir(p) if p + "/" + x not in self.removed}
        for q in list(self.vfs) + list(self.vdirs):
            if posixpath.dirname(q) == p:
                out.add(posixpath.basename(q))
        return dir_order(out)

    def mkdir(self, p, mode=0o777):
        p = self.abs(p)
        if self.exists(p):
            raise FileExistsError(17, "File exists", p)
        if not self.isdir(posixpath.dirname(p)):
            raise FileNotFoundError(2, "No such file or directory", p)
        self.vdirs.add(p)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = self.abs(p)
        if self.exists(p):
            if exist_ok:
                return
            raise FileExistsError(17, "File exists", p)
        d = posixpath.dirname(p)
        if not self.isdir(d):
            self.makedirs(d, exist_ok=True)
        self.vdirs.add(p)

    def remove(self, p):
        p = self.abs(p)
        if p in self.vfs:
            del self.vfs[p]
        elif not self.isfile(p):
            raise FileNotFoundError(2, "No such file or directory", p)
        self.removed.add(p)

    def _write(self, p, kind, payload):
        p = self.abs(p)
        if not self.isdir(posixpath.dirname(p)):
            raise FileNotFoundError(2, "No such file or directory", p)
        self.vfs[p] = (kind, payload)
        self.removed.discard(p)
        return p

    def write_text(self, p, s):
        self._write(p, "text", s)

    def read_text(self, p):
        with self.open(p) as f:
            return f.read()

    def open(self, path, mode="r", *a, **k):
        if "b" in mode:
            raise Unsupported("binary file access")
        p = self.abs(path)
        if "w" in mode or "a" in mode:
            old = ""
            if "a" in mode and self.isfile(p):
                old = self.read_text(p)
            self._write(p, "text", old)
            return TextFile(self, p, old, mode)
        if p in self.vfs:
            kind, s = self.vfs[p]
            if kind != "text":
                raise UnicodeDecodeError("utf-8", b"", 0, 1, "binary file")
            return TextFile(self, p, s, mode)
        if self._real_ok(p) and real_os.path.isfile(p):
            with builtins.open(p) as f:
                return TextFile(self, p, f.read(), mode)
        raise FileNotFoundError(2, "No such file or directory", path)

    def np_save(self, file, a, allow_pickle=True, **k):
        p = str(file)
        if not p.endswith(".npy"):
            p += ".npy"
        if isinstance(a, dict):
            o = np.empty((), dtype=object)
            o[()] = copy.deepcopy(a)
            self._write(p, "npy", o)
        else:
            self._write(p, "npy", copy.deepcopy(fnumpy.asarray(a) if isinstance(a, (fnumpy.SymArray, ftorch.Tensor))
                                               else np.asarray(a)))

    def np_savez(self, *a, **k):
        raise Unsupported("np.savez")

    def np_load(self, file, mmap_mode=None, allow_pickle=False, **k):
        p = self.abs(file)
        if p in self.vfs:
            kind, o = self.vfs[p]
            if kind != "npy":
                raise ValueError("Cannot load file containing pickled data when allow_pickle=False")
            if o.dtype == object and not isinstance(o, fnumpy.SymArray) and not allow_pickle:
                raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
            return copy.deepcopy(o)
        if self._real_ok(p) and real_os.path.isfile(p):
            from .npyload import load
            return load(p, self, allow_pickle)
        raise FileNotFoundError(2, "No such file or directory", str(file))

    def torch_save(self, o, path, **k):
        self._write(path, "pt", copy.deepcopy(o))

    def torch_load(self, path, *a, **k):
        p = self.abs(path)
        if p in self.vfs and self.vfs[p][0] == "pt":
            return copy.deepcopy(self.vfs[p][1])
        raise FileNotFoundError(2, "No such file or directory", str(path))

    # ------------------------------------------------------------- modules
    def _build_modules(self):
        m = self.mods
        m["numpy"] = fnumpy.FakeNumpy(self)
        m["numpy.random"] = m["numpy"].random
        m["numpy.linalg"] = m["numpy"].linalg
        m.update(ftorch.build(self))
        m["os"] = self._os()
        m["os.path"] = m["os"].path
        m["posixpath"] = m["os"].path
        m["sys"] = self._sys()
        m["time"] = self._time()
        m["random"] = self._random()
        m["subprocess"] = self._subprocess()
        m["math"] = fake_math()
        m["shutil"] = types.ModuleType("shutil")
        m["shutil"].rmtree = lambda p, ignore_errors=False, **k: \
            None if ignore_errors and not self.isdir(p) else self.rmtree(p)
        m["glob"] = types.ModuleType("glob")
        m["glob"].glob = lambda p, **k: self.glob(p)
        m["warnings"] = StubModule(self, "warnings")
        for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.cm", "matplotlib.animation", "skimage", "skimage.io",
                  "skimage.transform", "PIL", "PIL.Image", "imageio", "mpi4py", "mpi4py.MPI", "pdb", "IPython",
                  "IPython.display", "tqdm", "scipy"):
            if n not in m:
                m[n] = StubModule(self, n)
        plt = m["matplotlib.pyplot"]
        plt.get_cmap = lambda n=None, *a: CMap(self, n)
        m["matplotlib"].pyplot = plt
        m["matplotlib"].cm = m["matplotlib.cm"]
        m["matplotlib.cm"].get_cmap = plt.get_cmap
        for n in ("magma", "viridis", "plasma", "inferno", "gray"):
            setattr(plt.cm, n, CMap(self, n)) if False else setattr(m["matplotlib.cm"], n, CMap(self, n))
        plt.cm = m["matplotlib.cm"]
        sk = m["skimage"]
        sk.io, sk.transform = m["skimage.io"], m["skimage.transform"]
        m["PIL"].Image = m["PIL.Image"]
        m["PIL.Image"].open = self._img_open
        m["skimage.io"].imsave = lambda p, im, *a, **k: self._imsave(p, im)
        m["skimage.io"].imread = self._imread
        m["mpi4py"].MPI = m["mpi4py.MPI"]
        m["mpi4py.MPI"].COMM_WORLD = self.comm
        for n in ("bokeh", "bokeh.io", "bokeh.io.doc", "bokeh.plotting", "bokeh.models", "bokeh.layouts", "bokeh.events",
                  "bokeh.models.widgets"):
            m[n] = StubModule(self, n)

    def _img_open(self, p):
        p = self.abs(p)
        if p not in self.vfs:
            raise FileNotFoundError(2, "No such file or directory", p)
        return FakeImage(self, p, self.vfs[p][1])

    def _imsave(self, p, im):
        q = self._write(p, "img", copy.deepcopy(fnumpy.asarray(im)) if not isinstance(im, Stub) else im)
        self.calls.append(("imsave", q))

    def saved_gif(self, p):
        return self.vfs[p][1]

    def _imread(self, p, *a, **k):
        q = self.abs(p)
        if q not in self.vfs:
            raise FileNotFoundError(2, "No such file or directory", p)
        return copy.deepcopy(self.vfs[q][1])

    def _os(self):
        w = self
        o = types.ModuleType("os")
        pth = types.ModuleType("os.path")
        for n in ("join", "split", "splitext", "basename", "dirname", "normpath", "isabs", "commonprefix", "sep",
                  "relpath", "commonpath", "curdir", "pardir"):
            setattr(pth, n, getattr(posixpath, n))
        pth.abspath = pth.realpath = lambda p: w.abs(p)
        pth.expanduser = lambda p: p
        pth.exists = pth.lexists = w.exists
        pth.isdir = w.isdir
        pth.isfile = w.isfile
        pth.islink = lambda p: False
        pth.getsize = lambda p: 1
        pth.getmtime = lambda p: w.clock
        o.path = pth
        o.listdir = w.listdir
        o.mkdir = w.mkdir
        o.makedirs = w.makedirs
        o.remove = o.unlink = w.remove
        o.getcwd = lambda: w.root
        o.getenv = lambda k, d=None: w.environ.get(k, d)
        o.environ = w.environ
        o.getpid = lambda: 4242
        o.sep, o.curdir, o.pardir, o.linesep, o.name = "/", ".", "..", "\n", "posix"

        def system(cmd):
            w.calls.append(("os.system", cmd))
            w.on_system(cmd)
            return 0
        o.system = system

        o.rmdir = lambda p: w.rmtree(p)

        def _exit(n):
            w.calls.append(("os._exit", n))
            raise SystemExit(n)
        o._exit = _exit

        def walk(top):
            ds = [x for x in w.listdir(top) if w.isdir(top + "/" + x)]
            fs = [x for x in w.listdir(top) if w.isfile(top + "/" + x)]
            yield top, ds, fs
            for d in ds:
                yield from walk(top + "/" + d)
        o.walk = walk
        o.cpu_count = lambda: 8
        return o

    def rmtree(self, d, *a, **k):
        d = self.abs(d)
        if not self.isdir(d):
            raise FileNotFoundError(2, "No such file or directory", d)
        for x in self.listdir(d):
            if self.isdir(d + "/" + x):
                self.rmtree(d + "/" + x)
            else:
                self.remove(d + "/" + x)
        self.vdirs.discard(d)
        self.removed.add(d)

    def _sys(self):
        s = types.ModuleType("sys")
        s.argv = self.argv
        s.executable = "/usr/bin/python3"
        s.stdout = s.stderr = types.SimpleNamespace(write=lambda *a: None, flush=lambda: None)
        s.path = []
        s.modules = {}
        s.version_info = (3, 11, 0)
        s.maxsize = 2 ** 63 - 1
        s.float_info = __import__("sys").float_info

        def exit_(n=0):
            self.calls.append(("sys.exit", n))
            raise SystemExit(n)
        s.exit = exit_
        return s

    def _time(self):
        t = types.ModuleType("time")

        def tick():
            self.clock += 0.25
            return self.clock
        t.time = t.perf_counter = t.monotonic = t.process_time = tick
        t.sleep = lambda s: None
        t.strftime = lambda *a: "2026-01-01"
        t.localtime = t.gmtime = lambda *a: None
        return t

    def _random(self):
        r = types.ModuleType("random")
        w = self

        def shuffle(a):
            ix = w.choice_idx(len(a), len(a), False)
            vals = [a[i] for i in ix]
            for i, v in enumerate(vals):
                a[i] = v
        r.shuffle = shuffle
        r.seed = lambda s=None: w.seed("py", s)
        one = lambda lo, hi, kind="u", isint=False: w.rng_flat("py", (), lo, hi, kind, isint)[0]
        r.random = lambda: one(0.0, 1.0)
        r.uniform = lambda a, b: one(0.0, 1.0) * (b - a) + a
        r.randint = lambda a, b: one(a, b, "i", True)
        r.randrange = lambda a, b=None: one(0 if b is None else a, (a if b is None else b) - 1, "i", True)
        r.gauss = r.normalvariate = lambda m=0.0, s=1.0: one(-6.0, 6.0, "n") * s + m
        r.choice = lambda xs: xs[w.choice_idx(len(xs), 1, True)[0]]
        r.sample = lambda xs, k: [list(xs)[i] for i in w.choice_idx(len(xs), k, False)]
        return r

    def _subprocess(self):
        s = types.ModuleType("subprocess")

        def rec(n, ret):
            def f(*a, **k):
                self.calls.append((n, a, k))
                if a and n != "subprocess.Popen":
                    self.on_system(a[0])
                return ret
            return f
        s.check_output = rec("subprocess.check_output", b"0123456789abcdef0123456789abcdef01234567\n")
        s.check_call = rec("subprocess.check_call", 0)
        s.call = rec("subprocess.call", 0)
        s.run = rec("subprocess.run", types.SimpleNamespace(returncode=0, stdout=b""))
        s.Popen = rec("subprocess.Popen", None)
        s.PIPE = -1
        s.CalledProcessError = type("CalledProcessError", (Exception,), {})
        return s


class FakeImage:
    def __init__(self, w, path, data):
        self._w, self.path, self.data = w, path, data

    def save(self, p, **k):
        self._w.calls.append(("gif", self._w.abs(p), [x.path for x in k.get("append_images", [])], self.path, k.get("duration"),
                              k.get("loop"), k.get("save_all")))
        self._w._write(p, "gif", [self] + list(k.get("append_images", [])))


def default_val(lo, hi):
    lo2 = lo if lo != -math.inf else (hi - 1 if hi != math.inf else 0.0)
    hi2 = hi if hi != math.inf else lo2 + 1
    return min(max(0.0, lo2), hi2)


def sym_add(a, b):
    return arr.s_add(a, b)


def tobool(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SBool):
        return x
    if isinstance(x, SVal):
        return sym.cmp_("ne", x, 0.0)
    return bool(x)


def scal_(v):
    if isinstance(v, (SVal, SBool, str)) or v is None:
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def num_or_none(x):
    if isinstance(x, (SVal, SBool)):
        return "sym"
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def fake_math():
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("__"):
            setattr(m, n, getattr(math, n))

    def lift(native, f):
        def g(x, *a):
            if isinstance(x, SBool):
                x = x.as_val()
            if isinstance(x, SVal):
                return f(x)
            if isinstance(x, (ftorch.Tensor, np.ndarray)):
                y = x.item()
                return f(y) if isinstance(y, SVal) else native(y, *a)
            return native(x, *a)
        return g
    for n, f in (("exp", sym.sexp), ("sqrt", sym.ssqrt), ("sin", sym.ssin), ("cos", sym.scos), ("tanh", sym.stanh),
                 ("floor", sym.sfloor), ("fabs", lambda x: abs(x)), ("ceil", lambda x: -sym.sfloor(-x)),
                 ("trunc", sym.strunc), ("log2", sym.slog2), ("log10", sym.slog10), ("isnan", sym.nanc),
                 ("isfinite", lambda x: sym.bnot(sym.nanc(x))), ("isinf", lambda x: False)):
        setattr(m, n, lift(getattr(math, n), f))

    def log(x, base=None):
        if isinstance(x, SVal):
            r = sym.slog(x)
            return r if base is None else r / math.log(base)
        return math.log(x) if base is None else math.log(x, base)
    m.log = log

    def pw(x, y):
        if isinstance(x, SVal) or isinstance(y, SVal):
            return sym.spow(x, y)
        return math.pow(x, y)
    m.pow = pw

    def hypot(*a):
        if any(isinstance(x, SVal) for x in a):
            return sym.ssqrt(sum(x * x for x in a))
        return math.hypot(*a)
    m.hypot = hypot
    return m
