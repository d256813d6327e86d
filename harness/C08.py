"""C08: growth functions compute their closed forms elementwise, with the documented ranges."""
from . import spec

BOUNDS = ("all x in [-2,3] (12 symbolic entries in a 1x1x3x4 or 2x1x2x3 grid), all parameters symbolic: mu in [-1,2], sigma in "
          "[0.02,1], amplitudes in [-2,2], coefficients in [-3,3], interval ends in [0,1], alpha in [0.05,0.5], omega in [1,30]")
OUTSIDE = "float32 rounding (tolerance 1e-3); parameters outside the ranges above"
ASSUMPTIONS = []


def cases(tier):
    out = []
    for f in ("Gaussian", "DoGaussian", "DoubleGaussian", "DoubleGaussian1", "GaussianMixture2", "GaussianMixture3", "Polynomial",
              "SmoothIntervals", "CosOverX2"):
        for mode in (0, 1):
            out.append((f"{f}-{mode}", dict(kind="law", fam=f, mode=mode)))
    for f in ("Gaussian", "DoGaussian", "GaussianMixture2", "Polynomial", "CosOverX2", "DoubleGaussian"):
        out.append((f"array-{f}", dict(kind="law", fam=f, mode=0, src="array")))
    for f in ("GaussianMixture2", "GaussianMixture3", "SmoothIntervals", "Polynomial"):
        out.append((f"more-{f}", dict(kind="law", fam=f, mode=1, n=4)))
        out.append((f"more0-{f}", dict(kind="law", fam=f, mode=0, n=5 if f == "GaussianMixture2" else 3)))
    out.append(("batch", dict(kind="law", fam="Gaussian", mode=1, shape=(2, 1, 2, 3))))
    out.append(("batch-mix", dict(kind="law", fam="GaussianMixture3", mode=1, shape=(2, 1, 2, 3))))
    out.append(("default-mode", dict(kind="defaults")))
    for f in ("Gaussian", "DoubleGaussian", "GaussianMixture2", "GaussianMixture3"):
        out.append((f"range-{f}", dict(kind="range", fam=f)))
    out.append(("peak", dict(kind="peak")))
    out.append(("identity", dict(kind="identity")))
    out.append(("steps", dict(kind="steps")))
    out.append(("meta", dict(kind="meta")))
    out.append(("smoothlife", dict(kind="smoothlife")))
    if tier == "thorough":
        for f in ("GaussianMixture2", "GaussianMixture3", "SmoothIntervals", "Polynomial", "DoGaussian"):
            for mode in (0, 1):
                out.append((f"big-{f}-{mode}", dict(kind="law", fam=f, mode=mode, shape=(2, 2, 5, 6), n=4)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def config(W, fam, mode, n=2):
    mu, sg = W.real("mu", -1.0, 2.0), W.real("sigma", 0.02, 1.0)
    m2, s2 = W.real("mu2", -1.0, 2.0), W.real("sigma2", 0.02, 1.0)
    if fam == "Gaussian":
        return dict(name=fam, mu=mu, sigma=sg, mode=mode), {}
    if fam == "DoGaussian":
        return dict(name=fam, mu=mu, sigma=sg, dx=W.real("dx", 0.0, 0.3), mode=mode), {}
    if fam == "DoubleGaussian":
        return dict(name=fam, mu=[mu, m2], sigma=[sg, s2], mode=mode), dict(mu=W.tensor([mu, m2]), sigma=W.tensor([sg, s2]))
    if fam == "DoubleGaussian1":
        return (dict(name="DoubleGaussian", mu=[mu], sigma=[sg], mode=mode), dict(mu=W.tensor([mu]), sigma=W.tensor([sg])))
    if fam == "GaussianMixture2":
        ps = [mu, sg, m2, s2] + [0.3, 0.2, 0.8, 0.1] * (n - 2)
        return dict(name="GaussianMixture", parameters=ps, mode=mode), {}
    if fam == "GaussianMixture3":
        ps = [W.real("a", -2, 2), mu, sg, W.real("b", -2, 2), m2, s2] + [0.5, 0.3, 0.2] * (n - 2)
        return dict(name="GaussianMixture", parameters=ps, mode=mode), {}
    if fam == "Polynomial":
        cs = [W.real(f"c{i}", -3.0, 3.0) for i in range(3 + n - 2)]
        return dict(name=fam, coefficients=cs, mode=mode), dict(coefficients=W.tensor(cs))
    if fam == "SmoothIntervals":
        iv = [[W.real("lo", 0.0, 0.5), W.real("hi", 0.5, 1.0)]] + [[0.6, 0.8]] * (n - 1)
        return (dict(name=fam, parameters=iv, alpha=W.real("alpha", 0.05, 0.5), mode=mode), dict(parameters=W.tensor(iv)))
    if fam == "CosOverX2":
        return dict(name=fam, mu=mu, omega=W.real("omega", 1.0, 30.0), mode=mode), {}
    raise ValueError(fam)


def run_law(W, fam, mode, src="tensor", shape=(1, 1, 3, 4), n=2):
    A = W.imp("yuca.activations")
    cfg, over = config(W, fam, mode, n)
    f = getattr(A, cfg["name"])(**dict(cfg, **over))
    size = shape[0] * shape[1] * shape[2] * shape[3]
    x = W.field("x", shape, -2.0, 3.0, None if size <= 12 else range(0, size, 5))
    arg = W.tensor(x) if src == "tensor" else W.nparray(x, "float32")
    g = spec.act(W, cfg)
    r = f(arg)
    W.check_eq(W.shape(r), tuple(shape), "shape")
    W.check_close(r, spec.bmap(g, x), 1e-3, "value")
    W.check_close(arg, x, 1e-6, "argument-unmodified")
    W.check_close(f(arg), spec.bmap(g, x), 1e-3, "value-again")


def run_defaults(W):
    A = W.imp("yuca.activations")
    x = W.field("x", (1, 1, 2, 2), -2.0, 3.0)
    for name, cfg in (("Gaussian", {}), ("DoGaussian", {}), ("GaussianMixture", {}), ("Polynomial", {}),
                      ("SmoothIntervals", {}), ("CosOverX2", {})):
        W.check_close(getattr(A, name)()(W.tensor(x)), spec.bmap(spec.act(W, dict(cfg, name=name)), x), 1e-3, "default:" + name)


def run_range(W, fam):
    A = W.imp("yuca.activations")
    x = W.field("x", (1, 1, 1, 2), -2.0, 3.0)
    for mode in (0, 1):
        cfg, over = config(W, fam, mode)
        W.check_range(getattr(A, cfg["name"])(**dict(cfg, **over))(W.tensor(x)), -1.0 if mode else 0.0, 1.0, 1e-4, f"range:{mode}")


def run_peak(W):
    """a Gaussian is 1 exactly at its centre, symmetric about it and strictly smaller elsewhere"""
    A = W.imp("yuca.activations")
    mu, sg = W.real("mu", -1.0, 2.0), W.real("sigma", 0.05, 1.0)
    d = W.real("d", 0.2, 1.0)
    f = A.Gaussian(mu=mu, sigma=sg, mode=0)
    v = W.L(f(W.tensor([mu, mu + d, mu - d])))
    W.check_close([v[0]], [1.0], 1e-4, "peak")
    W.check_close([v[1]], [v[2]], 1e-3, "symmetric")
    W.check_le(v[1], 0.9803, 1e-3, "smaller-off-centre")


def run_identity(W):
    A = W.imp("yuca.activations")
    x = W.field("x", (1, 1, 2, 3), -5.0, 5.0)
    W.check_close(A.Identity()(W.tensor(x)), x, 1e-6, "identity")


def run_steps(W):
    """array version of the smooth interval indicator"""
    A = W.imp("yuca.activations")
    x = W.reals("x", (2, 2), -1.0, 2.0)
    lo, hi = W.real("lo", 0.0, 0.5), W.real("hi", 0.5, 1.0)
    iv = [[lo, hi], [0.7, 0.9]]
    g = spec.act(W, dict(name="SmoothIntervals", parameters=iv, alpha=0.2))
    W.check_close(A.get_smooth_steps_fn(iv, alpha=0.2)(W.nparray(x)), [[g(v) for v in row] for row in x], 1e-3, "steps")


def run_meta(W):
    A = W.imp("yuca.activations")
    x = W.reals("x", (1, 3, 2, 2), 0.1, 1.0)
    for mode in (0, 1):
        y = A.GaussianMetaMixture(mode=mode)(W.tensor(x))
        ref = [[[[None] * 2 for _ in range(2)]]]
        for i in range(2):
            for j in range(2):
                z = (x[0][0][i][j] - x[0][1][i][j]) / (1e-7 + x[0][2][i][j])
                v = W.exp(-(z * z) / 2)
                ref[0][0][i][j] = v * 2 - 1 if mode else v
        W.check_close(y, ref, 1e-3, f"meta:{mode}")


def run_smoothlife(W):
    """the ring indicator: 1 between the two radii, 0 outside"""
    A = W.imp("yuca.activations")
    x = W.reals("x", (1, 1, 2, 3), 0.0, 2.0)
    ra, ri = 0.9, 0.35
    for v in x[0][0][0] + x[0][0][1]:
        W.assume(abs(v - ra) >= 1e-4)
        W.assume(abs(v - ri) >= 1e-4)
    y = A.SmoothLifeKernel(r_a=ra, r_i=ri)(W.nparray(x, "float32"))
    W.check_close(y, spec.bmap(lambda v: W.ite(W.and_(v >= ri, v <= ra), 1.0, 0.0), x), 1e-6, "ring")
