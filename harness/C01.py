"""C01: states stay in [0,1], keep shape/dtype, are never NaN, and the given state is not modified."""
from .common import ZOO, fcfg, kcfg, cls, CLASSES, make, off_threshold, spots, zoo

BOUNDS = ("one step (two for the automata that carry history) from an arbitrary state: values in [0,1], and in [-3,3] in the "
          "*-wild cases; a single cell in [-8,8], uniform grids in [-1,3]; grids 3x4..7x8 with up to 12 symbolic cells, all cells symbolic for 3x3/3x4; batch 1-2; Gaussian "
          "mu in [-1,2], sigma in [0,1] and dt in [0,2] symbolic in the par-* cases; the adaptive variant with its "
          "step bounded below by 0.25-0.3 (at most 4 trial steps)")
OUTSIDE = "inputs that are already NaN or infinite; GPU execution"
ASSUMPTIONS = []


def cases(tier):
    out = []
    for z in ZOO:
        out.append((z, dict(kind="step", z=z)))
        if tier == "thorough":
            out.append((z + "-2x", dict(kind="step", z=z, shape=(2, 5, 6), k=8)))
    for z in ("cca", "lenia", "meta", "rxn", "nca", "cca-4-4", "rstep", "cca-r2"):
        out.append((z + "-wild", dict(kind="step", z=z, lo=-3.0, hi=3.0)))
    for z in ("cca", "lenia", "meta", "rxn", "nca", "rstep", "code", "cca-2-4", "code4"):
        out.append((z + "-uniform", dict(kind="uniform", z=z)))
        out.append((z + "-outlier", dict(kind="outlier", z=z, lo=-8.0, hi=0.5)))
        out.append((z + "-outlier-high", dict(kind="outlier", z=z, lo=0.5, hi=8.0)))
    for z in ("cca", "cca-poly", "rxn", "nca"):
        out.append((z + "-zeros", dict(kind="step", z=z, mode="zeros")))
    for z in ("cca", "cca-4-4", "lenia", "cca-smooth"):
        out.append((z + "-half", dict(kind="step", z=z, dtype="float16")))
    for f in ("Gaussian", "DoGaussian", "DoubleGaussian", "GaussianMixture"):
        out.append(("par-" + f, dict(kind="par", f=f)))
        out.append(("tie-" + f, dict(kind="tie", f=f)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def step(W, ca, shape, k, lo, hi, dtype, steps=2):
    u = W.field("u", shape, lo, hi, spots(shape, k))
    off_threshold(W, u)
    t = W.tensor(u, dtype)
    for s in range(steps):
        before = W.L(t)
        r = ca(t)
        W.check_eq(W.shape(r), tuple(shape), "shape")
        W.check_eq(str(r.dtype), str(t.dtype), "dtype")
        W.check_range(r, 0.0, 1.0, 1e-5, "range")
        W.check_close(t, before, 1e-9, "input-unmodified")
        # next step from another arbitrary state: only what the automaton itself remembers is carried over
        u = W.field(f"u{s + 1}", shape, lo, hi, spots(shape, k))
        off_threshold(W, u)
        t = W.tensor(u, dtype)


def run_step(W, z, lo=0.0, hi=1.0, shape=None, k=None, dtype="float32", mode="circular"):
    ca, ext, r = zoo(W, z, mode)
    if z.startswith("rstep"):
        W.rng_mode = lambda lib, kind, shape, name: "sym" if lib == "np" else "const"
    b, h, w = shape or ((2, 3, 4) if ext <= 2 and r == 1 else (1, 2 * r + 1, 2 * r + 2))
    hard = z in ("code", "code4")
    if k is None:
        k = 1 if hard else 6
    step(W, ca, (b, ext, h, w), k, lo, hi, dtype, 1 if z.startswith("cca") or hard else 2)


def one(W, ca, u):
    t = W.tensor(u)
    r = ca(t)
    W.check_eq(W.shape(r), W.shape(t), "shape")
    W.check_range(r, 0.0, 1.0, 1e-5, "range")
    W.check_close(t, u, 1e-5, "input-unmodified")


def run_uniform(W, z):
    """every cell of a channel has the same value, inside or outside [0,1]"""
    for s in range(1 if z == "code4" else 2):
        ca, ext, r = zoo(W, z)
        n = 2 * r + 1
        vals = [W.real(f"v{s}_{c}", (1.6, -1.0)[s], (3.0, 1.0)[s]) if c in (0, ext - 1) else 0.4 for c in range(ext)]
        u = [[[[v] * n] * n for v in vals]]
        off_threshold(W, u)
        one(W, ca, u)


def run_outlier(W, z, lo, hi):
    """a tame grid with a single extreme cell"""
    ca, ext, r = zoo(W, z)
    n = 2 * r + 2
    u = [[[[0.3 + 0.02 * ((i + 2 * j + c) % 7) for j in range(n)] for i in range(n)] for c in range(ext)]]
    u[0][0][1][1] = W.real("x", lo, hi)
    off_threshold(W, u)
    one(W, ca, u)


def run_tie(W, f):
    """neighborhood sums exactly at the centre of a growth function of width zero"""
    ca = cls(W, CLASSES["CCA"])(kernel_radius=1)
    for mode in (0, 1):
        for v in (0.0, 0.5, 1.0):
            m = [v] if f == "DoubleGaussian" else v
            c = {"name": f, "mu": W.tensor(m), "sigma": W.tensor([0.0] if f == "DoubleGaussian" else 0.0), "mode": mode}
            if f == "GaussianMixture":
                c = {"name": f, "parameters": [v, 0.0, v, W.real("sg", 0.0, 0.1)], "mode": mode}
            if f == "DoGaussian":
                c["dx"] = W.real("dx", 0.0, 0.1)
            ca.load_config({"neighborhood_kernel_config": kcfg("moore", 1), "genesis_config": c, "persistence_config": c,
                            "dt": W.real("dt", 0.0, 2.0)})
            r = ca(W.tensor([[[[v] * 4] * 3]]))
            W.check_range(r, 0.0, 1.0, 1e-5, f"range:{mode}:{v}")


def run_par(W, f):
    """every parameter value, including sigma = 0"""
    m1, s1 = W.real("mu1", -1.0, 2.0), W.real("sg1", 0.0, 1.0)
    m2, s2 = W.real("mu2", -1.0, 2.0), W.real("sg2", 0.0, 1.0)
    dt = W.real("dt", 0.0, 2.0)
    if f == "GaussianMixture":
        c = {"name": f, "parameters": [W.real("a1", -2, 2), m1, s1, 0.5, m2, s2], "mode": 1}
        d = {"name": f, "parameters": [m2, s2, m1, s1], "mode": 0}
    elif f == "DoubleGaussian":
        c = {"name": f, "mu": W.tensor([m1, m2]), "sigma": W.tensor([s1, s2]), "mode": 1}
        d = {"name": f, "mu": W.tensor([m2]), "sigma": W.tensor([s1]), "mode": 0}
    else:
        c = {"name": f, "mu": m1, "sigma": s1, "mode": 1}
        d = {"name": f, "mu": m2, "sigma": s2, "mode": 0}
    ca = cls(W, CLASSES["CCA"])(kernel_radius=1)
    ca.load_config({"neighborhood_kernel_config": kcfg("gauss", 1), "genesis_config": c, "persistence_config": d, "dt": dt})
    step(W, ca, (1, 1, 3, 3), 2, 0.0, 1.0, "float32", 1)
