"""C36: plots show the curves of the log, the growth functions of its rules, and the grids and kernels they are given."""
from . import spec
from .common import CLASSES, cls

BOUNDS = ("logs of 1-4 generations with arbitrary fitness values and 1-3 elites in the last, with 4 families of growth functions, of "
          "which polynomials have arbitrary coefficients; all points of the curves for fixed, every 200th for arbitrary functions; grids of 3x4, "
          "kernels of radius 1-2 with arbitrary values")
OUTSIDE = "colours, line styles, titles and the layout of a figure; what matplotlib does with its arguments"
ASSUMPTIONS = []
OPTS = {"max_paths": 60}

FN = {
    "gauss": {"name": "Gaussian", "mu": 0.3, "sigma": 0.12, "mode": 1},
    "mix": {"name": "GaussianMixture", "parameters": [0.7, 0.2, 0.1, 0.4, 0.5, 0.2], "mode": 0},
    "poly": {"name": "Polynomial", "coefficients": [-0.5, 2.0, -1.5, 0.25], "mode": 0},
    "smooth": {"name": "SmoothIntervals", "parameters": [[0.2, 0.35]], "alpha": 0.15, "mode": 1},
}


def cases(tier):
    out = []
    for g in (1, 2, 4):
        out.append((f"curves-{g}", dict(kind="curves", gens=g)))
    for fs in (("gauss", "poly"), ("mix", "gauss"), ("smooth", "mix"), ("poly", "smooth")):
        out.append(("rules-" + "-".join(fs), dict(kind="rules", fs=fs)))
    out.append(("rules-three", dict(kind="rules", fs=("gauss", "poly"), more=(("mix", "smooth"), ("poly", "gauss")))))
    out.append(("missing", dict(kind="missing")))
    out.append(("show", dict(kind="show")))
    out.append(("kernel-growth", dict(kind="kg")))
    out.append(("grid-nbhd", dict(kind="gn")))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def fcfg(W, c):
    c = dict(c)
    if c["name"] == "SmoothIntervals":
        c["parameters"] = W.tensor(c["parameters"])
    return c


def config(W, g, p):
    return {"neighborhood_kernel_config": {"name": "Gaussian", "radius": 1, "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}},
            "genesis_config": fcfg(W, g), "persistence_config": fcfg(W, p), "dt": 0.1}


def log(W, configs, gens):
    """a log with those configurations in its last generation, others before"""
    n = len(gens)
    other = [config(W, dict(FN["gauss"], mu=0.77), dict(FN["gauss"], mu=0.55))] * 2
    d = {"elite_configs": [other] * (n - 1) + [configs],
         "mean_fitness": [g[0] for g in gens], "max_fitness": [g[1] for g in gens], "min_fitness": [g[2] for g in gens],
         "std_dev_fitness": [g[3] for g in gens]}
    W.makedirs(W.root + "/logs", exist_ok=True)
    p = W.root + "/logs/exp_plot_seed1.npy"
    W.np_save(p, d)
    return p


def plot(W, path, show=0):
    W.calls.clear()
    W.imp("yuca.plot").plot_exp(input_filepath=path, show=show)
    return list(W.calls)


def drawn(W, calls, what="plot"):
    """the arguments of the drawing calls of that name, in order"""
    return [(c[1], c[2]) for c in calls if c[0].startswith("matplotlib") and c[0].split(".")[-1] == what]


def flat(W, x):
    x = W.L(x)
    while x and isinstance(x[0], list):
        x = [z for y in x for z in y]
    return x


def run_curves(W, gens):
    gs = [[W.real(f"{n}{g}", *r) for n, r in (("mean", (-0.5, 0.5)), ("max", (0.5, 1.0)), ("min", (-1.0, -0.5)), ("sd", (0.0, 0.3)))]
          for g in range(gens)]
    calls = plot(W, log(W, [config(W, FN["gauss"], FN["poly"])], gs))
    curves = [a for a, k in drawn(W, calls) if len(flat(W, a[1])) == gens]
    W.check(len(curves) == 3, "three-curves", info=str(len(curves)))
    for k, name in enumerate(("mean", "max", "min")):
        want = [g[k] for g in gs]
        for a in curves[k:k + 1]:
            W.check_close([W.num(x) for x in flat(W, a[0])], [float(i) for i in range(gens)], 1e-6, "generations")
            W.check_close(flat(W, a[1]), want, 1e-6, name)
    bands = [a for a, k in drawn(W, calls, "fill_between")]
    W.check(len(bands) == 1, "one-band")
    W.check_close([W.num(x) for x in flat(W, bands[0][0])], [float(i) for i in range(gens)], 1e-6, "band-generations")
    W.check_close(flat(W, bands[0][1]), [g[0] - g[3] for g in gs], 1e-6, "band-below")
    W.check_close(flat(W, bands[0][2]), [g[0] + g[3] for g in gs], 1e-6, "band-above")


def run_rules(W, fs, more=()):
    """genesis and persistence function of every elite of the last generation"""
    pairs = [tuple(dict(FN[f]) for f in x) for x in (fs,) + tuple(more)]
    g0 = pairs[0][0]
    if g0["name"] == "Polynomial":
        g0["coefficients"] = [W.real(f"c{i}", -1.0, 1.0) for i in range(4)]
    p0 = pairs[0][1]
    if p0["name"] == "Polynomial":
        p0["coefficients"] = [W.real(f"d{i}", -1.0, 1.0) for i in range(4)]
    path = log(W, [config(W, g, p) for g, p in pairs], [[0.1, 0.2, 0.0, 0.05]] * 2)
    calls = plot(W, path)
    curves = [a for a, k in drawn(W, calls) if len(flat(W, a[1])) > 10]
    W.check(len(curves) == 2 * len(pairs), "two-curves-for-each-rule", info=str(len(curves)))
    for i, (g, p) in enumerate(pairs):
        for a, f in zip(curves[2 * i:2 * i + 2], (g, p)):
            xs, ys = flat(W, a[0]), flat(W, a[1])
            W.check(len(xs) == len(ys) and len(xs) >= 100, "points")
            W.check(abs(float(xs[0]) + 0.1) < 1e-3 and abs(float(xs[-1]) - 1.1) < 2e-2, "range")
            act = spec.act(W, f)
            pick = range(0, len(xs), 200 if len(xs) > 2000 else 10)
            W.check_close([ys[j] for j in pick], [act(float(xs[j])) for j in pick], 1e-4, "growth-function")


def run_missing(W):
    W.check(W.raises(lambda: plot(W, W.root + "/logs/nothing.npy")) is not None, "missing-log-is-refused")
    W.check(not drawn(W, W.calls), "nothing-drawn")


def run_show(W):
    path = log(W, [config(W, FN["gauss"], FN["poly"])], [[0.1, 0.2, 0.0, 0.05]])
    for s in (0, 1):
        calls = plot(W, path, s)
        W.check(len(drawn(W, calls, "show")) == s, "shown-when-asked")
    before = W.L(W.np_load(path, allow_pickle=True).reshape(1)[0]["mean_fitness"])
    W.check_close(before, [0.1], 1e-6, "log-untouched")


def run_kg(W):
    r = W.pick("r", [1, 2])
    k = [[W.real(f"k{i}.{j}", 0.0, 1.0) if (i + j) % 2 else 0.1 * i for j in range(2 * r + 1)] for i in range(2 * r + 1)]
    lo, hi = W.pick("range", [(-0.1, 1.1), (0.0, 0.5)])
    mu = W.real("mu", 0.1, 0.9)
    fn = lambda x: x * 2.0 + mu
    W.calls.clear()
    W.imp("yuca.utils").plot_kernel_growth(W.nparray(k), fn, my_xrange=[lo, hi])
    ims = drawn(W, W.calls, "imshow")
    W.check(len(ims) == 1, "one-picture")
    W.check_close(flat(W, ims[0][0][0]), [x for y in k for x in y], 1e-6, "kernel")
    cs = drawn(W, W.calls)
    W.check(len(cs) == 1, "one-curve")
    xs, ys = flat(W, cs[0][0][0]), flat(W, cs[0][0][1])
    W.check(abs(float(xs[0]) - lo) < 1e-3 and abs(float(xs[-1]) - hi) < 2e-2 * (hi - lo) and len(xs) == len(ys), "range")
    W.check_close(ys[::50], [2.0 * float(x) + mu for x in xs[::50]], 1e-5, "growth-function")


def run_gn(W):
    gs = [[[W.real(f"g{n}.{i}.{j}", 0.0, 1.0) for j in range(4)] for i in range(3)] for n in range(3)]
    W.calls.clear()
    W.imp("yuca.utils").plot_grid_nbhd(*[W.nparray(g) for g in gs], titles=["a", "b", "c"])
    ims = [a[0] for a, k in drawn(W, W.calls, "imshow")]
    W.check(len(ims) == 3, "three-pictures")
    for n, x in enumerate(ims):
        W.check_close(flat(W, x), [v for r in gs[n] for v in r], 1e-6, ["grid", "neighborhood", "update"][n])
    W.check([a[0] for a, k in drawn(W, W.calls, "title")] == ["a", "b", "c"], "titles")
