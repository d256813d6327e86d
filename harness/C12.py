"""C12: the reaction-diffusion automaton is the Gray-Scott system: law, parameters, equilibria, conservation."""
from . import spec
from .common import CLASSES, cls, spots

BOUNDS = ("one step; grids 3x3..6x7 (all cells of the 3x4 grids, otherwise up to 12 symbolic cells); feed, decay, "
          "diffusion, dx and dt symbolic in the par-* cases; stencil radius 1-3")
OUTSIDE = "long-time behaviour of patterns; float rounding"
ASSUMPTIONS = ["feed and decay rates in [0,0.1]", "diffusion rates in [1e-6,4e-5]", "dx in [1/400,1/100]", "dt in [0.01,1] (or, in the wide cases, rates up to 1 with cells of size 1.5)"]


def cases(tier):
    out = [("law-default", dict(kind="law", shape=(1, 2, 3, 4))), ("law-batch", dict(kind="law", shape=(3, 2, 3, 3), k=18)),
           ("law-wide", dict(kind="law", shape=(1, 2, 5, 9), k=12))]
    for how in ("set", "config", "setters", "default-f"):
        out.append((f"par-{how}", dict(kind="par", how=how)))
    for r in (2, 3):
        out.append((f"radius-{r}", dict(kind="law", shape=(1, 2, 2 * r + 1, 2 * r + 2), k=10, radius=r)))
    out.append(("wide", dict(kind="wide")))
    out.append(("wide-config", dict(kind="wide", how="config")))
    out.append(("wild", dict(kind="law", shape=(1, 2, 3, 4), k=12, lo=-1.0, hi=2.0)))
    out.append(("sigma", dict(kind="law", shape=(1, 2, 3, 4), k=10, radius=1, sigma=0.9)))
    for how in ("default", "set", "config"):
        out.append((f"h3-{how}", dict(kind="h3", how=how)))
    out.append(("reload", dict(kind="reload")))
    out.append(("trivial", dict(kind="trivial")))
    out.append(("mass", dict(kind="mass")))
    out.append(("decoupled", dict(kind="decoupled")))
    if tier == "thorough":
        out.append(("law-big", dict(kind="law", shape=(2, 2, 6, 7))))
        out.append(("radius-5", dict(kind="law", shape=(1, 2, 12, 13), k=16, radius=5)))
        for sg in (0.3, 0.7, 1.2):
            out.append((f"sigma-{sg}", dict(kind="law", shape=(2, 2, 5, 6), k=12, radius=2, sigma=sg)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


DEF = dict(du=2e-5, dv=1e-5, f=0.0620, k=0.0609, dt=0.5, dx=1 / 330.0)


def new(W):
    return cls(W, CLASSES["RxnDfn"])()


def config(q, radius=1, sigma=0.5):
    return {"neighborhood_kernel_config": {"name": "LaplacianOfGaussian", "radius": radius,
                                           "kernel_kwargs": {"sigma": sigma}},
            "params": [q["du"], q["dv"], q["f"], q["k"]], "dt": q["dt"], "dx": q["dx"],
            "diffusion_u": q["du"], "diffusion_v": q["dv"], "feed_rate": q["f"], "decay_rate": q["k"]}


def law(W, u, q, radius=1, sigma=0.5):
    kern = spec.kernel({"name": "LaplacianOfGaussian", "radius": radius, "kernel_kwargs": {"sigma": sigma}})
    lap = spec.conv(u, [[kern], [kern]], 2)
    B, _, H, Wd = spec.dims(u)
    out = [[[[None] * Wd for _ in range(H)] for _ in range(2)] for _ in range(B)]
    inv = W.div(1.0, q["dx"] * q["dx"])
    for b in range(B):
        for i in range(H):
            for j in range(Wd):
                a, v = u[b][0][i][j], u[b][1][i][j]
                du = q["du"] * lap[b][0][i][j] * inv - a * v * v + q["f"] * (1 - a)
                dv = q["dv"] * lap[b][1][i][j] * inv + a * v * v - (q["f"] + q["k"]) * v
                out[b][0][i][j] = W.clamp(a + q["dt"] * du, 0.0, 1.0)
                out[b][1][i][j] = W.clamp(v + q["dt"] * dv, 0.0, 1.0)
    return out


def run_reload(W):
    """an automaton that has already been stepped takes over everything a later configuration or setter changes"""
    ca = new(W)
    u0 = W.field("u0", (1, 2, 3, 3), 0.0, 1.0, [4])
    u = W.field("u", (1, 2, 3, 3), 0.0, 1.0, spots((1, 2, 3, 3), 6))
    ca(W.tensor(u0))
    q = dict(DEF, dx=W.real("dx", 1 / 400, 1 / 100), dt=W.real("dt", 0.01, 1.0), f=W.real("f", 0.0, 0.1))
    ca.load_config(config(q))
    W.check_close(ca(W.tensor(u)), law(W, u, q), 3e-4, "after-config")
    q = dict(q, du=W.real("du", 1e-6, 4e-5), dx=W.real("dx2", 1 / 400, 1 / 100))
    ca.set_diffusion_u(q["du"])
    ca.set_dx(q["dx"])
    W.check_close(ca(W.tensor(u)), law(W, u, q), 3e-4, "after-setters")
    q = dict(q, **params(W))
    ca.set_params(W.nparray([q["du"], q["dv"], q["f"], q["k"]]))
    W.check_close(ca(W.tensor(u)), law(W, u, q), 3e-4, "after-params")
    ca.load_config(config(DEF, 2, 0.6))
    v = W.field("v", (1, 2, 5, 5), 0.0, 1.0, spots((1, 2, 5, 5), 6))
    W.check_close(ca(W.tensor(v)), law(W, v, DEF, 2, 0.6), 3e-4, "after-config-2")


def run_law(W, shape, k=None, radius=None, sigma=0.5, lo=0.0, hi=1.0):
    ca = new(W)
    if radius is not None:
        ca.load_config(config(DEF, radius, sigma))
    u = W.field("u", shape, lo, hi, None if k is None else spots(shape, k))
    W.check_close(ca(W.tensor(u)), law(W, u, DEF, radius or 1, sigma), 3e-4, "gray-scott")


def params(W):
    return dict(du=W.real("du", 1e-6, 4e-5), dv=W.real("dv", 1e-6, 4e-5), f=W.real("f", 0.0, 0.1), k=W.real("k", 0.0, 0.1))


def run_par(W, how):
    ca = new(W)
    q = dict(DEF, **params(W))
    if how == "set":
        ca.set_params(W.nparray([q["du"], q["dv"], q["f"], q["k"]]))
    elif how == "config":
        q.update(dt=W.real("dt", 0.01, 1.0), dx=W.real("dx", 1 / 400, 1 / 100))
        ca.load_config(config(q))
    elif how == "setters":
        q.update(dt=W.real("dt", 0.01, 1.0), dx=W.real("dx", 1 / 400, 1 / 100), f=DEF["f"], k=DEF["k"])
        ca.set_diffusion_u(q["du"])
        ca.set_diffusion_v(q["dv"])
        ca.set_dt(q["dt"])
        ca.set_dx(q["dx"])
        W.check_close([ca.get_diffusion_u(), ca.get_diffusion_v()], [q["du"], q["dv"]], 1e-8, "reported-diffusion")
        W.check_close([ca.get_dx(), ca.get_dt()], [q["dx"], q["dt"]], 1e-6, "reported-steps")
    else:
        q = dict(DEF)
    got = W.L(ca.get_params())
    W.check_close(got, [q["du"], q["dv"], q["f"], q["k"]], 1e-7, "reported-params")
    shape = (1, 2, 3, 4)
    u = W.field("u", shape, 0.0, 1.0, spots(shape, 6))
    W.check_close(ca(W.tensor(u)), law(W, u, q), 3e-4, "gray-scott")


def run_wide(W, how="set"):
    """units in which a cell is of size one: rates of any order of magnitude are used, and reported, as they are"""
    ca = new(W)
    q = dict(du=W.real("du", 0.0, 0.5), dv=W.real("dv", 0.0, 0.5), f=W.real("f", 0.0, 1.0), k=W.real("k", -0.5, 1.0), dx=1.5, dt=1.25)
    if how == "config":
        ca.load_config(config(q))
    else:
        ca.set_params(W.nparray([1e-5, 1e-5, q["f"], q["k"]]))
        ca.set_diffusion_u(q["du"])
        ca.set_diffusion_v(q["dv"])
        ca.set_dx(q["dx"])
        ca.set_dt(q["dt"])
    W.check_close(ca.get_params(), [q["du"], q["dv"], q["f"], q["k"]], 1e-6, "reported-params")
    u = W.field("u", (1, 2, 3, 4), 0.0, 1.0, [5, 19])
    W.check_close(ca(W.tensor(u)), law(W, u, q), 3e-4, "gray-scott")


def run_h3(W, how):
    """the background state offered for new grids is a stationary state of the system it is offered for"""
    ca = new(W)
    q = dict(DEF)
    if how != "default":
        q.update(params(W))
        # the state exists only where sqrt(f) >= 2 (f + k)
        q["f"] = W.real("f3", 0.01, 0.06)
        q["k"] = W.real("k3", 0.01, 0.06)
        W.assume(q["f"] >= 4.05 * (q["f"] + q["k"]) * (q["f"] + q["k"]))
        if how == "set":
            ca.set_params(W.nparray([q["du"], q["dv"], q["f"], q["k"]]))
        else:
            ca.load_config(config(q))
    g = ca.initialize_grid(batch_size=2, dim=[3, 4])
    W.check_eq(W.shape(g), (2, 2, 3, 4), "shape")
    g = W.L(g)
    u, v = g[0][0][0][0], g[0][1][0][0]
    W.check_close(g, [[[[x] * 4] * 3 for x in (u, v)]] * 2, 1e-7, "uniform")
    W.check_range([u, v], 0.0, 1.0, 1e-5, "equilibrium-range")
    W.check_close([u * v * v], [(q["f"] + q["k"]) * v], 2e-5, "v-stationary")
    W.check_close([u * v * v], [q["f"] * (1 - u)], 2e-5, "u-stationary")
    if how == "default":
        s = ca.initialize_grid(1, 3)
        W.check_eq(W.shape(s), (1, 2, 3, 3), "square")
        W.check_close(ca(s), s, 2e-5, "stationary")


def run_trivial(W):
    """u = 1, v = 0 is stationary for all parameters"""
    ca = new(W)
    q = params(W)
    ca.set_params(W.nparray([q["du"], q["dv"], q["f"], q["k"]]))
    g = [[[[1.0] * 4] * 3, [[0.0] * 4] * 3]]
    W.check_close(ca(W.tensor(g)), g, 2e-5, "empty-stationary")


def run_mass(W):
    """without reaction (v = 0) and feed, diffusion only moves u around: the total stays the same"""
    ca = new(W)
    ca.set_params(W.nparray([W.real("du", 1e-6, 2e-6), 1e-6, 0.0, 0.05]))
    a = W.reals("a", (4, 4), 0.35, 0.65)
    o = W.L(ca(W.tensor([[a, [[0.0] * 4] * 4]])))[0]
    W.check_close([sum(sum(r) for r in o[0])], [sum(sum(r) for r in a)], 1e-3, "total-u")
    W.check_close(o[1], [[0.0] * 4] * 4, 1e-6, "no-v")


def run_decoupled(W):
    """with u = 0 there is no reaction: v only decays and diffuses, u is only fed"""
    ca = new(W)
    q = dict(DEF, **params(W))
    ca.set_params(W.nparray([q["du"], q["dv"], q["f"], q["k"]]))
    c = W.real("c", 0.0, 1.0)
    o = W.L(ca(W.tensor([[[[0.0] * 3] * 3, [[c] * 3] * 3]])))[0]
    W.check_close(o[0], [[0.5 * q["f"]] * 3] * 3, 2e-5, "feed")
    W.check_close(o[1], [[W.clamp(c - 0.5 * (q["f"] + q["k"]) * c, 0.0, 1.0)] * 3] * 3, 2e-5, "decay")
