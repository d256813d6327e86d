"""C07: every kernel family is the normalised image of its radial profile."""
import math

from . import spec

BOUNDS = ("radius 1-3 with the profile parameters (mu, sigma, amplitudes, omega, r_a, r_i, dx, scale) symbolic; radius up to "
          "9 with fixed parameters; tolerance 1e-3 (1e-5 for the fixed-parameter comparisons)")
OUTSIDE = "profiles that are constant over the kernel support (their normaliser is 0/eps)"
ASSUMPTIONS = ["sigma in [0.05,0.6], mu in [-0.5,1.5]", "total profile mass above its minimum at least 1e-3 (for the sum-to-one claim)"]

FAM = ["Gaussian", "GaussianMixture2", "GaussianMixture3", "DoGaussian", "CosOverX2", "SmoothLifeKernel"]
DERIVED = ("Gaussian", "GaussianMixture2", "SmoothLifeKernel")
FIX = {
    "Gaussian": {"mu": 0.4, "sigma": 0.2}, "GaussianMixture": {"parameters": [0.7, 0.3, 0.1, 0.5, 0.8, 0.15]},
    "DoGaussian": {"mu": 0.55, "sigma": 0.21}, "CosOverX2": {"mu": 0.45, "omega": 9.0},
    "SmoothLifeKernel": {"r_a": 0.9, "r_i": 0.4}, "LaplacianOfGaussian": {"sigma": 0.45},
}


def cases(tier):
    out = []
    for f in FAM:
        for r in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append((f"{f}-r{r}", dict(kind="sym", fam=f, r=r)))
    for f in FIX:
        for r in (1, 3, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 9, 13):
            out.append((f"fix-{f}-r{r}", dict(kind="fix", fam=f, r=r)))
    for n in (3, 4):
        out.append((f"rings-{n}", dict(kind="rings", n=n)))
    for n in (1, 2, 4):
        out.append((f"pairs-{n}", dict(kind="rings", n=n, pairs=True)))
    for h in ("gaussian", "gaussian_mixture", "dogaussian", "cosx2"):
        for sc in (1.0, 0.7):
            if h == "dogaussian" and sc != 1.0:
                continue
            out.append((f"fn-{h}-{sc}", dict(kind="fn", fn=h, r=2, sc=sc)))
        if h != "dogaussian":
            out.append((f"fn-{h}-r1", dict(kind="fn", fn=h, r=1, sc=1.3)))
        out.append((f"fn-{h}-r3", dict(kind="fn", fn=h, r=3, sc=1.0)))
    for h in ("gaussian", "dogaussian"):
        for m in (0, 1):
            out.append((f"edge-{h}-{m}", dict(kind="edge", fn=h, mode=m)))
    out.append(("laplacian", dict(kind="lap")))
    out.append(("moore", dict(kind="moore")))
    out.append(("unknown", dict(kind="unknown")))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def profile(W, fam):
    mu, sg = W.real("mu", -0.5, 1.5), W.real("sigma", 0.05, 0.6)
    if fam == "Gaussian":
        return fam, {"mu": mu, "sigma": sg}
    if fam == "GaussianMixture2":
        return "GaussianMixture", {"parameters": [mu, sg, 0.2, 0.1]}
    if fam == "GaussianMixture3":
        return "GaussianMixture", {"parameters": [W.real("amp", 0.1, 0.45), mu, sg, 0.5, 0.7, 0.15]}
    if fam == "DoGaussian":
        return fam, {"mu": mu, "sigma": sg, "dx": 0.05}
    if fam == "CosOverX2":
        return fam, {"mu": mu, "omega": W.real("omega", 1.0, 30.0)}
    if fam == "SmoothLifeKernel":
        return fam, {"r_a": W.real("ra", 0.8, 1.5), "r_i": W.real("ri", 0.1, 0.6)}
    raise ValueError(fam)


def fn_of(W, name, kw):
    if name == "SmoothLifeKernel":
        return lambda x: W.ite(W.and_(x >= kw["r_i"], x <= kw["r_a"]), 1.0, 0.0)
    return spec.act(W, dict(kw, name=name))


def plane(W, k, r):
    W.check_eq(W.shape(k), (1, 1, 2 * r + 1, 2 * r + 1), "size")
    return W.L(k)[0][0]


def affine_image(W, k, f, label, derived=False):
    """k = (f - min f) / (1e-9 + sum(f - min f)); from it: entries in [0,1], minimum 0, sum 1"""
    n = len(k)
    ks = [k[i][j] for i in range(n) for j in range(n)]
    fs = [f[i][j] for i in range(n) for j in range(n)]
    mn = W.min_all(fs)
    mass = 0.0
    for x in fs:
        mass = mass + (x - mn)
    inv = W.div(1.0, 1e-9 + mass)
    W.assume(mass >= 1e-3)
    W.check_close(ks, [(x - mn) * inv for x in fs], 1e-4, label + ":formula")
    if derived:
        W.check_range(ks, 0.0, 1.0, 1e-4, label + ":range")
        s = 0.0
        for x in ks:
            s = s + x
        W.check_close([s], [1.0], 1e-3, label + ":sums-to-one")


def values(W, f, r, sc=1.0):
    """profile over the grid, one evaluation per distance"""
    memo = {}
    out = []
    for y in range(-r, r + 1):
        row = []
        for x in range(-r, r + 1):
            q = x * x + y * y
            if q not in memo:
                memo[q] = f(math.sqrt(q) / r * sc)
            row.append(memo[q])
        out.append(row)
    return out


def symmetric(W, k, r, label):
    a, b = [], []
    for y in range(-r, r + 1):
        for x in range(-r, r + 1):
            a.append(k[y + r][x + r])
            p, q = sorted((abs(x), abs(y)))
            b.append(k[r + q][r + p])
    W.check_close(a, b, 1e-5, label + ":radial-symmetry")


def run_sym(W, fam, r):
    name, kw = profile(W, fam)
    K = W.imp("yuca.kernels")
    k = plane(W, K.get_kernel({"name": name, "radius": r, "kernel_kwargs": kw}), r)
    symmetric(W, k, r, name)
    affine_image(W, k, values(W, fn_of(W, name, kw), r), name, r == 1 and fam in DERIVED)


def run_fn(W, fn, r, sc):
    K = W.imp("yuca.kernels")
    mu, sg = W.real("mu", -0.5, 1.5), W.real("sigma", 0.05, 0.6)
    if fn == "gaussian":
        k, f = K.get_gaussian_kernel(radius=r, mu=mu, sigma=sg, r_scale=sc), fn_of(W, "Gaussian", {"mu": mu, "sigma": sg})
    elif fn == "gaussian_mixture":
        ps = [0.4, mu, sg, 0.5, 0.7, 0.15]
        k = K.get_gaussian_mixture_kernel(radius=r, parameters=W.nparray(ps), r_scale=sc)
        f = fn_of(W, "GaussianMixture", {"parameters": ps})
    elif fn == "dogaussian":
        k, f = K.get_dogaussian_kernel(radius=r, mu=mu, sigma=sg), fn_of(W, "DoGaussian", {"mu": mu, "sigma": sg})
    else:
        k, f = K.get_cosx2_kernel(radius=r, mu=mu, omega=9.0, r_scale=sc), fn_of(W, "CosOverX2", {"mu": mu, "omega": 9.0})
    k = plane(W, k, r)
    symmetric(W, k, r, fn)
    affine_image(W, k, values(W, f, r, sc), fn)


RINGS = [(0.5, 0.1, 0.12), (1.0, 0.35, 0.07), (0.66, 0.6, 0.2), (0.25, 0.9, 0.1)]


def run_rings(W, n, pairs=False):
    """mixtures of several rings, one of which is arbitrary; every ring keeps its own amplitude, centre and width"""
    K = W.imp("yuca.kernels")
    for s in range(n):
        rows = [list(x) for x in RINGS[:n]]
        mu, sg = W.real(f"mu{s}", -0.5, 1.5), W.real(f"sigma{s}", 0.05, 0.6)
        rows[s] = [rows[s][0] if pairs else W.real(f"amp{s}", 0.1, 1.0), mu, sg]
        ps = [x for row in rows for x in (row[1:] if pairs else row)]
        for how in ("config", "function"):
            if how == "config":
                k = K.get_kernel({"name": "GaussianMixture", "radius": 2, "kernel_kwargs": {"parameters": list(ps)}})
            else:
                k = K.get_gaussian_mixture_kernel(radius=2, parameters=W.nparray(ps))
            affine_image(W, plane(W, k, 2), values(W, fn_of(W, "GaussianMixture", {"parameters": ps}), 2), f"{how}:{s}")


def run_edge(W, fn, mode):
    """difference of two profiles shifted apart along one axis"""
    K = W.imp("yuca.kernels")
    r = 1
    mu, sg = W.real("mu", 0.0, 1.0), W.real("sigma", 0.1, 0.6)
    dx = 0.2
    k = plane(W, getattr(K, f"get_{fn}_edge_kernel")(radius=r, mu=mu, sigma=sg, mode=mode, dx=dx), r)
    f = fn_of(W, "Gaussian" if fn == "gaussian" else "DoGaussian", {"mu": mu, "sigma": sg})
    g = []
    for y in range(-r, r + 1):
        row = []
        for x in range(-r, r + 1):
            sx, sy = (dx, 0.0) if mode else (0.0, dx)
            row.append(f(math.hypot(x - sx, y - sy) / r) - f(math.hypot(x + sx, y + sy) / r))
        g.append(row)
    n = 2 * r + 1
    ks = [k[i][j] for i in range(n) for j in range(n)]
    mn = W.min_all([x for row in g for x in row])
    mass = 0.0
    for row in g:
        for x in row:
            mass = mass + (x - mn)
    W.assume(mass >= 1e-3)
    inv = W.div(1.0, 1e-9 + mass)
    W.check_close(ks, [(x - mn) * inv for row in g for x in row], 1e-3, "edge:formula")


def run_fix(W, fam, r):
    K = W.imp("yuca.kernels")
    cfg = {"name": fam, "radius": r, "kernel_kwargs": dict(FIX[fam])}
    k = plane(W, K.get_kernel(cfg), r)
    W.check_close(k, spec.kernel(cfg), 1e-5, "formula")


def run_lap(W):
    K = W.imp("yuca.kernels")
    W.check_close(K.get_laplacian_kernel(), [[[[.25, .5, .25], [.5, -3., .5], [.25, .5, .25]]]], 1e-7, "stencil")
    sg = W.real("sigma", 0.3, 1.5)
    for r in (1, 2):
        k = plane(W, K.get_kernel({"name": "LaplacianOfGaussian", "radius": r, "kernel_kwargs": {"sigma": sg}}), r)
        symmetric(W, k, r, "log")
        s = 0.0
        for row in k:
            for x in row:
                s = s + x
        W.check_close([s], [0.0], 1e-4, "log:sums-to-zero")
        f = values(W, lambda x: -(1 / (math.pi * sg ** 4)) * (1 - x * x / (2 * sg * sg)) * W.exp(-(x * x) / (2 * sg * sg)), r)
        n = 2 * r + 1
        fs = [x for row in f for x in row]
        mean = 0.0
        for x in fs:
            mean = mean + x / (n * n)
        mass = 0.0
        for x in fs:
            mass = mass + abs(x - mean)
        inv = W.div(1.0, mass)
        W.check_close([x for row in k for x in row], [(x - mean) * inv for x in fs], 1e-3, "log:formula")


def run_moore(W):
    K = W.imp("yuca.kernels")
    W.check_close(K.get_kernel({"name": "InnerMoore", "radius": 1}), [[[[0, 0, 0], [0, 1.0, 0], [0, 0, 0]]]], 1e-9, "inner")
    for r in (1, 2, 3, 5):
        cfg = {"name": "MooreLike", "radius": r, "kernel_kwargs": {}}
        W.check_close(plane(W, K.get_kernel(cfg), r), spec.kernel(cfg), 1e-6, "moore")


def run_unknown(W):
    K = W.imp("yuca.kernels")
    e = W.raises(lambda: K.get_kernel({"name": "NoSuchKernel", "radius": 1, "kernel_kwargs": {}}), Exception)
    W.check(e is not None, "unknown-name-rejected")
