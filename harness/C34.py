"""C34: the named presets are the rules they are named after."""
from . import spec
from .common import CLASSES, cls, spots

BOUNDS = ("one step of every preset at radius 1-5 (7 in the thorough tier) in the continuous and the growth-only "
          "automata, from 7x6 grids with up to 8 arbitrary cells, the rest fixed; all kernel weights at the default radii (13, 31, 10) "
          "and every other radius up to 14; a step at the default radius from 14x14 (orbium) and 11x11 (SmoothLife) grids with 2 "
          "arbitrary cells; arbitrary SmoothLife intervals in [0.1,0.9]")
OUTSIDE = "whether particular patterns survive under a preset; radii for which a SmoothLife ring's edge passes exactly through cells (multiples of 3)"
ASSUMPTIONS = []
OPTS = {"max_paths": 200}

# the published parameters
ORB = dict(kernel={"name": "Gaussian", "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}},
           gen={"name": "GaussianMixture", "parameters": [0.15, 0.015], "mode": 1}, r=13, dt=0.1)
ORB["per"] = ORB["gen"]
GEM = dict(kernel={"name": "GaussianMixture", "kernel_kwargs": {"parameters": [0.5, 0.093809, 0.033, 1.0, 0.28143, 0.033,
                                                                              2 / 3.0, 0.46904, 0.033]}},
           gen={"name": "GaussianMixture", "parameters": [0.26, 0.036], "mode": 1}, r=31, dt=0.1)
GEM["per"] = GEM["gen"]
SML = dict(kernel={"name": "SmoothLifeKernel", "kernel_kwargs": {"r_a": 1.05, "r_i": 1 / 3.0}},
           idk={"name": "SmoothLifeKernel", "kernel_kwargs": {"r_a": 1 / 3.0, "r_i": 0.0}},
           gen={"name": "SmoothIntervals", "parameters": [[0.278, 0.365]], "alpha": 0.028, "mode": 1},
           per={"name": "SmoothIntervals", "parameters": [[0.267, 0.445]], "alpha": 0.147, "mode": 1}, r=10, dt=1.0)
PRE = {"orbium": ("get_orbium_config", ORB), "geminium": ("get_geminium_config", GEM), "smooth": ("get_smooth_life_config", SML)}


def cases(tier):
    out = []
    for n in PRE:
        rs = [1, 2, 4] if n != "smooth" else [2, 4, 5]
        for r in rs + ([7] if tier == "thorough" else []):
            out.append((f"step-{n}-r{r}", dict(kind="step", n=n, r=r)))
        out.append((f"step-{n}-lenia", dict(kind="step", n=n, r=2, z="Lenia")))
        out.append((f"kernel-{n}", dict(kind="kernel", n=n)))
        out.append((f"fresh-{n}", dict(kind="fresh", n=n)))
    out.append(("default-orbium", dict(kind="step", n="orbium", r=None, size=(14, 14), k=2, every=9)))
    out.append(("default-smooth", dict(kind="step", n="smooth", r=None, size=(11, 11), k=2, every=5)))
    if tier == "thorough":
        out.append(("default-geminium", dict(kind="step", n="geminium", r=None, size=(32, 32), k=1, every=50)))
    for which in ("birth", "survival", "both"):
        out.append((f"intervals-{which}", dict(kind="intervals", which=which)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def preset(W, n, r=None, **kw):
    f = getattr(W.imp("yuca.configs"), PRE[n][0])
    return f(**kw) if r is None else f(radius=r, **kw)


def the_model(n, r=None, **over):
    s = dict(PRE[n][1], **over)
    r = r or s["r"]
    k = [[spec.kernel(dict(s["kernel"], radius=r))]]
    idk = [[spec.kernel(dict(s["idk"], radius=r))]] if "idk" in s else None
    return spec.Model(1, 1, k, [s["gen"]], [s["per"]], s["dt"], idk)


def grid(W, h, w, k, lo=0.0, hi=1.0):
    g = [[((7 * i + 5 * j + i * j) % 11) / 11.0 if (i + 2 * j) % 3 else 0.0 for j in range(w)] for i in range(h)]
    for t, q in enumerate(spots((h, w), k)):
        g[q // w][q % w] = W.real(f"c{t}", lo, hi)
    return [[g]]


def run_step(W, n, r, z="CCA", size=(7, 6), k=8, every=1):
    ca = cls(W, CLASSES[z])(kernel_radius=2)
    ca.load_config(preset(W, n, r))
    ca.no_grad()
    m = the_model(n, r)
    W.check_close([W.num(ca.get_dt())], [m.dt], 1e-6, "time-step")
    W.check(ca.kernel_radius == (r or PRE[n][1]["r"]), "radius", info=str(ca.kernel_radius))
    u = grid(W, *size, k)
    got = W.L(ca(W.tensor(u)))
    if z == "Lenia":
        m.idk = [[[[0.0]]]]     # growth only
    want = m.step(W, u)
    a = [x for row in got[0][0] for x in row][::every]
    b = [x for row in want[0][0] for x in row][::every]
    W.check_close(a, b, 2e-4 if n != "smooth" else 1e-3, "step")


def run_kernel(W, n):
    """weights of the neighborhood (and identity) kernel at many radii"""
    r = W.pick("radius", [None] + [x for x in range(1, 15) if n != "smooth" or x % 3 and x > 1])
    c = preset(W, n, r)
    ca = cls(W, CLASSES["CCA"])()
    ca.load_config(c)
    m = the_model(n, r)
    for name, got, want in (("neighborhood", ca.neighborhood_kernels, m.nbk), ("identity", ca.id_layer.weight, m.idk)):
        W.check_close(W.L(got)[0][0], want[0][0], 1e-6, name)


def run_fresh(W, n):
    """a preset changed by its user is new the next time; genesis and persistence are changed separately"""
    v = W.real("v", 0.3, 0.6)
    c = preset(W, n)
    keep = W.L(c["persistence_config"]["parameters"])
    p = c["genesis_config"]["parameters"]
    p[0] = v
    W.check_close(W.L(c["persistence_config"]["parameters"]), keep, 1e-7, "genesis-and-persistence-apart")
    c["genesis_config"]["mode"] = 0
    c["dt"] = 0.77
    kk = c["neighborhood_kernel_config"]["kernel_kwargs"]
    for key in list(kk):
        if n == "geminium":
            kk[key][1] = v
        else:
            kk[key] = 0.9
    c["neighborhood_kernel_config"]["radius"] = 3
    d = preset(W, n)
    ca = cls(W, CLASSES["CCA"])()
    ca.load_config(preset(W, n, 2))
    ca.no_grad()
    u = grid(W, 6, 6, 2)
    W.check_close(W.L(ca(W.tensor(u))), the_model(n, 2).step(W, u), 2e-4 if n != "smooth" else 1e-3, "step")
    W.check(d["neighborhood_kernel_config"]["radius"] == PRE[n][1]["r"], "radius")
    W.check_close(W.L(d["genesis_config"]["parameters"]), PRE[n][1]["gen"]["parameters"], 1e-6, "genesis")


def run_intervals(W, which):
    """SmoothLife with the user's own intervals: one or two of each"""
    kw, over = {}, {}
    for name, key in (("birth", "gen"), ("survival", "per")):
        if which not in (name, "both"):
            continue
        m = W.pick(name, [1, 2])
        iv = [[W.real(f"{name}{i}lo", 0.1, 0.5), W.real(f"{name}{i}hi", 0.5, 0.9)] for i in range(m)]
        kw[name + "_intervals"] = iv
        over[key] = dict(SML[key], parameters=iv)
    ca = cls(W, CLASSES["CCA"])()
    ca.load_config(preset(W, "smooth", 4, **kw))
    ca.no_grad()
    u = grid(W, 5, 6, 0)
    got, want = W.L(ca(W.tensor(u)))[0][0], the_model("smooth", 4, **over).step(W, u)[0][0]
    W.check_close([x for r in got for x in r][::4], [x for r in want for x in r][::4], 1e-3, "step")
