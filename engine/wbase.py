"""Harness world: the part shared by the symbolic world (fakes + solver) and
the concrete world (real torch/numpy, used to replay counterexamples).

Pure Python, no third-party imports: it runs under python3-vt (3.12) and under
the repository's own interpreter (3.11).
"""
import copy
import hashlib
import math


class AssumeFailed(BaseException):
    pass


class StopPath(BaseException):
    """harness asked to end this path"""


def hash01(name):
    """deterministic pseudo-random number in (0,1) from a name"""
    h = hashlib.blake2b(name.encode(), digest_size=8).digest()
    return (int.from_bytes(h, "big") + 0.5) / 2.0 ** 64


def nest(flat, shape):
    flat = list(flat)
    if len(shape) == 0:
        return flat[0]
    if len(shape) == 1:
        return flat
    n = 1
    for s in shape[1:]:
        n *= s
    return [nest(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def flatten(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(flatten(y))
        return out
    return [x]


def shape_of(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape_of(x[0]) if len(x) else ())
    return ()


def prod(shape):
    n = 1
    for s in shape:
        n *= int(s)
    return n


class WBase:
    concrete = False

    def _init_base(self):
        self.seeds = {}          # lib -> [seed, counter]
        self.rng_mode = "const"  # 'const' | 'sym' | callable(lib, kind, shape, name) -> mode
        self.rng_log = []
        self.drawn = []
        self.choice_mode = "const"
        self.calls = []          # recorded os.system / subprocess / plt calls ...
        self.init_ctr = 0
        self.clock = 1.7e9
        self.environ = {"PATH": "/usr/bin", "HOME": "/nonexistent"}
        self.argv = ["prog"]
        self.trace = []
        self.cmap = default_cmap
        self.image_files = {}
        self.comm = Comm(self)
        self.opt_step = None     # callable(parameters): what an optimizer's step does to them (default: nothing)
        self.train_log = []      # ("zero",), ("backward", loss tensor), ("step", parameters) in the order they happened

    def scratch(self, name):
        """a directory of the harness's own under the (scratch) working tree"""
        d = f"{self.root}/scratch_{name}"
        self.makedirs(d, exist_ok=True)
        return d

    # -- shell commands ---------------------------------------------------------
    def on_system(self, cmd):
        """effect of a shell command on the (scratch or virtual) files: rm and mkdir are modelled"""
        import shlex
        parts = shlex.split(cmd) if isinstance(cmd, str) else [str(c) for c in cmd]
        while parts:
            k = next((i for i, x in enumerate(parts) if x in (";", "&&") or x.endswith(";")), len(parts) - 1)
            one, parts = [x.rstrip(";") for x in parts[:k + 1] if x not in (";", "&&")], parts[k + 1:]
            if one and one[0] in ("rm", "mkdir"):
                opts = "".join(x[1:] for x in one[1:] if x.startswith("-"))
                for pat in one[1:]:
                    if not pat.startswith("-"):
                        getattr(self, "sh_" + one[0])(self.abs(pat), opts)

    def sh_mkdir(self, p, opts):
        import posixpath
        if not (p + "/").startswith(self.root + "/") or self.exists(p):
            return
        if "p" in opts or self.isdir(posixpath.dirname(p)):
            self.makedirs(p, exist_ok=True)

    def sh_rm(self, pat, opts):
        import fnmatch
        import posixpath
        d = posixpath.dirname(pat)
        if not (d + "/").startswith(self.root + "/") or not self.isdir(d):
            return
        for q in self.listdir(d):
            if fnmatch.fnmatch(q, posixpath.basename(pat)):
                q = posixpath.join(d, q)
                if self.isdir(q):
                    if "r" in opts or "R" in opts:
                        self.rmtree(q)
                else:
                    self.remove(q)

    def gif_images(self, path):
        """pictures of a saved animation, the one it was saved from first"""
        return [x.data for x in self.saved_gif(self.abs(path))]

    def glob(self, pat):
        import fnmatch
        import posixpath
        q = self.abs(pat)
        d, b = posixpath.split(q)
        if not self.isdir(d):
            return []
        rel = posixpath.dirname(str(pat))
        return [posixpath.join(rel, x) for x in self.listdir(d) if fnmatch.fnmatch(x, b)]

    # -- random numbers ---------------------------------------------------------
    def seed(self, lib, s):
        if s is None:
            s = "none"
        elif not isinstance(s, str):
            s = int(s)
        self.seeds[lib] = [s, 0]

    def get_state(self, lib):
        s = self.seeds.setdefault(lib, ["init", 0])
        return tuple(s)

    def set_state(self, lib, s):
        self.seeds[lib] = list(s)

    def rng_names(self, lib, n):
        s = self.seeds.setdefault(lib, ["init", 0])
        base = f"rng:{lib}:{s[0]}:{s[1]}"
        s[1] += 1
        return base, [f"{base}:{i}" for i in range(n)]

    def init_flat(self, n):
        """a new layer's parameters, in [-1,1]: drawn from torch's generator, never symbolic"""
        return [2 * round(hash01(nm), 3) - 1 for nm in self.rng_names("torch", n)[1]]

    def rng_flat(self, lib, shape, lo, hi, kind, isint=False):
        base, names = self.rng_names(lib, prod(shape))
        self.rng_log.append((base, tuple(shape), kind, lo, hi))
        out = []
        for nm in names:
            mode = self.rng_mode
            if callable(mode):
                mode = mode(lib, kind, tuple(shape), nm)
            if mode == "sym":
                out.append(self.rng_value(nm, lo, hi, kind, isint))
            elif isinstance(mode, (int, float)) and not isinstance(mode, bool):
                out.append(mode)
            else:
                out.append(const_draw(nm, lo, hi, kind, isint))
        self.drawn.append((lib, kind, list(out)))
        return out

    def choice_idx(self, n, k, replace, p=None):
        """deterministic (hash-based) indices; p: list of weights or None"""
        base, names = self.rng_names("np", max(k, 1))
        if self.choice_mode == "sym":
            out = []
            for nm in names[:k]:
                i = self.int(nm, 0, n - 1)
                if not replace:
                    for j in out:
                        self.assume(self.not_(i == j))
                out.append(int(i))
            return out
        if replace or p is not None and False:
            out = []
            for nm in names[:k]:
                u = hash01(nm)
                if p is None:
                    out.append(min(int(u * n), n - 1))
                else:
                    acc, i = 0.0, 0
                    for i in range(n):
                        acc += p[i]
                        if u < acc:
                            break
                    out.append(i)
            return out
        pool = list(range(n))
        out = []
        if k > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        for nm in names[:k]:
            j = min(int(hash01(nm) * len(pool)), len(pool) - 1)
            out.append(pool.pop(j))
        return out

    # -- derived inputs --------------------------------------------------------
    def reals(self, name, shape, lo, hi):
        shape = tuple(shape)
        return nest([self.real(f"{name}:{i}", lo, hi) for i in range(prod(shape))], shape)

    def field(self, name, shape, lo, hi, sym=None):
        """like reals, but only the flat positions in `sym` are symbolic; the rest are
        fixed pseudo-random constants in [lo, hi]"""
        shape = tuple(shape)
        n = prod(shape)
        s = set(range(n)) if sym is None else set(sym)
        fl = []
        for i in range(n):
            if i in s:
                fl.append(self.real(f"{name}:{i}", lo, hi))
            else:
                fl.append(lo + (hi - lo) * (0.0003 + 0.999 * round(hash01(f"{name}:{i}"), 3)))
        return nest(fl, shape)

    def rt(self, name, shape, lo=0.0, hi=1.0, sym=None, dtype="float32"):
        return self.tensor(self.field(name, shape, lo, hi, sym), dtype)

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    # -- checks -------------------------------------------------------------------
    def check_close(self, a, b, tol=1e-3, label="close"):
        a, b = self.L(a), self.L(b)
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb:
            self.check(False, label + ":shape", info=f"{sa} vs {sb}")
            return
        fa, fb = flatten(a), flatten(b)
        self._close(fa, fb, tol, label)

    def check_eq(self, a, b, label):
        """plain python equality of concrete values"""
        self.check(bool(a == b), label, info=f"{a!r} vs {b!r}")

    def check_range(self, a, lo, hi, tol=1e-4, label="range"):
        for i, chunk in enumerate(chunks(flatten(self.L(a)), 16)):
            t = tol if not self.concrete else tol * 0.5
            c = True
            self.raw(True)
            for x in chunk:
                c = self.and_(c, self.and_(x >= lo - t, x <= hi + t))
            self.raw(False)
            self.check(c, label)

    def raw(self, on):
        pass

    def check_le(self, a, b, tol, label):
        t = tol if not self.concrete else tol * 0.5
        self.raw(True)
        c = a <= b + t
        self.raw(False)
        self.check(c, label)

    def num(self, x):
        """the number in a scalar or one-element tensor"""
        x = self.L(x)
        while isinstance(x, list):
            x = x[0]
        return x

    def raises(self, fn, *exc):
        exc = exc or (Exception,)
        try:
            fn()
        except exc as e:
            return e
        return None


class Comm:
    """single-process stand-in for an MPI communicator: messages are queued; a harness plays the other ranks in on_wait"""

    def __init__(self, w):
        self.w = w
        self.rank = 0
        self.size = 1
        self.queue = {}
        self.on_wait = None

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest=0, tag=0, **k):
        self.queue.setdefault((self.rank, dest), []).append(copy.deepcopy(obj))

    def recv(self, buf=None, source=0, tag=0, **k):
        q = self.queue.setdefault((source, self.rank), [])
        if not q and self.on_wait is not None:
            self.on_wait(source)
        if not q:
            raise NoMessage(f"rank {self.rank} waits for rank {source} for ever")
        return q.pop(0)

    def Barrier(self):
        pass
    barrier = Barrier


class NoMessage(Exception):
    pass


def const_draw(nm, lo, hi, kind, isint):
    u = hash01(nm)
    if isint:
        return int(lo + min(int(u * (hi - lo + 1)), hi - lo))
    if kind == "n":
        # crude normal: sum of three uniforms, std 1
        v = sum(hash01(nm + f"#{k}") for k in range(3)) - 1.5
        return round(2.0 * v, 3)
    return lo + (hi - lo) * round(min(max(u, 0.001), 0.998), 3)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def dir_order(names):
    """directory listings come in no particular order: neither sorted nor by time"""
    return sorted(names, key=lambda n: n[::-1])


def default_cmap(x):
    """an injective affine colour map, standing in for matplotlib's"""
    return (0.1 + 0.8 * x, 0.9 - 0.7 * x, 0.3 + 0.5 * x, 1.0)


class Hang(BaseException):
    """the code under test did not come to an end within its time"""


def watch(root, seconds):
    """raise Hang once `seconds` have passed while the code under `root` is running; watch(None, 0) ends the watch"""
    import signal
    signal.setitimer(signal.ITIMER_REAL, 0)
    if not seconds:
        return

    def ring(sig, frame):
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith(root + "/"):
                raise Hang(f"still running after {seconds:.0f} s at {f.f_code.co_filename[len(root) + 1:]}:{f.f_lineno}")
            f = f.f_back
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2.0)
