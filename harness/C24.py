"""C24: changing a setting, at any time, gives the automaton that was configured with it from the start."""
from . import C10, spec
from .common import CLASSES, FNS, KERN, cls, fcfg, kcfg, make_multi, multi_kernels, spots
from .C10 import build, impulse, kern_vector

BOUNDS = ("every class, each setter and pairs of setters in both orders, before and after a step, with numbers and tensors; "
          "every kernel family and radius 1-4 as old and new kernel; time step, diffusion rates, dx and state cells arbitrary; one "
          "step on up to 9x10 grids with up to 3 symbolic cells")
OUTSIDE = "radii beyond 4"
ASSUMPTIONS = ["dt in [0.01,1]", "dx in [1/400,1/100]", "diffusion rates in [1e-6,4e-5]"]
KLASSES = ("CCA", "Lenia", "MetaCA", "RandomStepCA", "CODE", "NCA")
NW = {}


def cases(tier):
    out = []
    for k in KLASSES:
        for when in ("new", "stepped"):
            out.append((f"radius-{k}-{when}", dict(kind="radius", klass=k, when=when)))
            out.append((f"kernel-{k}-{when}", dict(kind="kernel", klass=k, when=when)))
        out.append((f"load-{k}", dict(kind="load", klass=k)))
        out.append((f"order-{k}", dict(kind="order", klass=k)))
    for k in ("CCA", "Lenia", "MetaCA", "NCA", "RxnDfn"):
        for form in ("number", "tensor"):
            out.append((f"dt-{k}-{form}", dict(kind="dt", klass=k, form=form)))
    for a in KERN:
        for b in KERN:
            if a != b:
                out.append((f"from-{a}-to-{b}", dict(kind="family", a=a, b=b)))
    for c in ("CCA", "NCA"):
        out.append((f"default-{c}", dict(kind="default", klass=c)))
    out.append(("multi", dict(kind="multi")))
    for w in ("new", "stepped"):
        for r in (1, 2, 3):
            out.append((f"rxn-radius{r}-{w}", dict(kind="rxn", when=w, r=r)))
    out.append(("rxn-setters", dict(kind="rxnset")))
    out.append(("identity", dict(kind="identity")))
    out.append(("identity-nca", dict(kind="identity", klass="NCA")))
    for k in ("CCA", "NCA"):
        out.append((f"no-kwargs-{k}", dict(kind="nokw", klass=k)))
    out.append(("handed-over", dict(kind="handed")))
    out.append(("independent", dict(kind="independent")))
    out.append(("modes", dict(kind="modes")))
    if tier == "thorough":
        for k in KLASSES:
            for a in KERN:
                for r in (1, 2, 3, 4):
                    out.append((f"all-{k}-{a}-{r}", dict(kind="kernel", klass=k, when="stepped", kern=a, r=r)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def conf(W, klass, r, kern, dt):
    if klass == "NCA":
        # 14 weights (hidden 2, one channel), the kernel's parameters
        kp = [x for y in KERN[kern]["kernel_kwargs"].values() for x in (y if isinstance(y, list) else [y])]
        return {"neighborhood_kernel_config": kcfg(kern, r), "dt": dt,
                "params": W.nparray([0.6, -0.4, 0.3, 0.8, 0.2, 0.4, 0.5, 0.1, -0.3, 0.9, 0.1, 0.35, 0.7, -0.9] + kp)}
    return {"neighborhood_kernel_config": kcfg(kern, r), "genesis_config": fcfg(W, "gauss"), "persistence_config": fcfg(W, "mix2"),
            "dt": dt}


def new(W, klass, r, kern, dt=0.3):
    kw = {"hidden_channels": 2} if klass == "NCA" else {"min_dt": 0.3} if klass == "CODE" else {}
    ca = cls(W, CLASSES[klass])(kernel_radius=r, **kw)
    ca.load_config(conf(W, klass, r, kern, dt))
    ca.eval()
    return ca


def step(W, ca, u):
    return W.L(C10.step(W, ca, u))


def warm(W, ca, when, ext=1):
    if when == "stepped":
        u = [[[[0.1 + 0.07 * ((3 * i + 5 * j + c) % 11) for j in range(9)] for i in range(9)] for c in range(ext)]]
        ca(W.tensor(u))
        ca.get_frame(W.tensor(u))


def same(W, a, b, r, tag="", klass="CCA", ext=1):
    u = C10.field(W, ext, r, 0 if klass == "CODE" else 3, "u" + tag)
    W.check_eq(a.get_kernel_radius(), r, "radius-read" + tag)
    W.check_close(a.get_params(), W.L(b.get_params()), 1e-5, "parameters" + tag)
    W.check_close(impulse(W, a, ext, r), W.L(impulse(W, b, ext, r)), 1e-4, "kernel" + tag)
    W.check_close(step(W, a, u), step(W, b, u), 1e-3, "step" + tag)


def run_radius(W, klass, when):
    a = new(W, klass, 2, "mix6")
    for r in (3, 1, 2, 4):
        warm(W, a, when)
        a.set_kernel_radius(r)
        same(W, a, new(W, klass, r, "mix6"), r, f":{r}", klass)


def run_kernel(W, klass, when, kern="smooth", r=3):
    if klass == "Lenia":
        kern = "cos"
    a = new(W, klass, 2, "gauss")
    warm(W, a, when)
    a.set_kernel_config(kcfg(kern, r))
    same(W, a, new(W, klass, r, kern), r, "", klass)
    warm(W, a, when)
    a.set_kernel_config(kcfg("moore", 1))
    same(W, a, new(W, klass, 1, "moore"), 1, ":back", klass)
    kw = {k: v for k, v in kern_vector(W, "mix6", 1)[1].items()}
    a.set_kernel_config(kw)
    b = new(W, klass, 1, "gauss")
    c = conf(W, klass, 1, "mix6", 0.3)
    c["neighborhood_kernel_config"] = dict(kw)
    if klass == "NCA":
        p = W.L(b.get_params())[:14] + list(kw["kernel_kwargs"]["parameters"])
        c["params"] = W.nparray(p)
    b.load_config(c)
    W.check_close(impulse(W, a, 1, 1), W.L(impulse(W, b, 1, 1)), 1e-4, "any-kernel")


def run_load(W, klass):
    """nothing of the previous configuration, or of what happened since, is left over"""
    a = new(W, klass, 3, "mix6", 0.9)
    a.set_dt(0.7)
    a.set_kernel_radius(2)
    warm(W, a, "stepped")
    p = W.L(a.get_params())
    a.set_params(W.nparray([0.25 + 0.01 * i for i in range(len(p))]))
    dt = 0.3 if klass == "CODE" else W.real("dt", 0.01, 1.0)
    a.load_config(conf(W, klass, 1, "dog", dt))
    a.eval()
    b = new(W, klass, 1, "dog", dt)
    W.check_close([a.get_dt()], [b.get_dt()], 1e-7, "dt")
    same(W, a, b, 1, "", klass)
    # without a time step in the configuration: the default again
    c = conf(W, klass, 1, "gauss", 0.3)
    del c["dt"]
    a.set_dt(0.77)
    a.load_config(c)
    a.eval()
    W.check_close([a.get_dt()], [0.1], 1e-7, "dt-default")


def run_order(W, klass):
    dt = 0.3 if klass == "CODE" else W.real("dt", 0.01, 1.0)
    ref = new(W, klass, 2, "cos", dt)
    acts = {"r": lambda x: x.set_kernel_radius(2), "k": lambda x: x.set_kernel_config(kcfg("cos", 2)), "d": lambda x: x.set_dt(dt)}
    for seq in ("kd", "dk", "rkd", "krd", "dkr"):
        a = new(W, klass, 1, "gauss")
        for s in seq:
            acts[s](a)
        same(W, a, ref, 2, ":" + seq, klass)


def run_dt(W, klass, form):
    dt = W.real("dt", 0.01, 1.0)
    if klass == "RxnDfn":
        a, b, ext, r = cls(W, CLASSES[klass])(), cls(W, CLASSES[klass])(), 2, 1
        c = b.make_config()
        c["dt"] = dt
        b.load_config(c)
    else:
        a, b, ext, r = new(W, klass, 1, "gauss"), new(W, klass, 1, "gauss", dt), 1, 1
    for when in ("new", "stepped"):
        a.set_dt(0.9)
        warm(W, a, when, ext)
        a.set_dt(dt if form == "number" else W.tensor(dt))
        W.check_close([a.get_dt()], [dt], 1e-6, f"read:{when}")
        same(W, a, b, r, ":" + when, klass, ext)
    # the clock advances by what was set
    a.reset()
    if hasattr(a, "t_count"):
        u = C10.field(W, ext, r, 1)
        a(W.tensor(u))
        a(W.tensor(u))
        W.check_close([W.num(a.t_count)], [2 * dt], 1e-5, "clock")


def run_family(W, a, b):
    x = new(W, "CCA", 2, a)
    x.set_kernel_config(kcfg(b, 3))
    same(W, x, new(W, "CCA", 3, b), 3)
    x.set_kernel_radius(1)
    same(W, x, new(W, "CCA", 1, b), 1, ":smaller")


def run_default(W, klass):
    """an automaton that was never configured: a ring mixture of any radius"""
    a = cls(W, CLASSES[klass])(kernel_radius=2, kernel_peaks=1, **({"hidden_channels": 2} if klass == "NCA" else {}))
    a.eval()
    p = W.L(a.get_params())[-3:]
    for r in (3, 1):
        a.set_kernel_radius(r)
        W.check_eq(a.get_kernel_radius(), r, f"radius:{r}")
        k = spec.kernel({"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": p}})
        W.check_close(impulse(W, a, 1, r), C10.image(W, k, r, 1), 1e-4, f"kernel:{r}")
        u = C10.field(W, 1, r, 3, f"u{r}")
        W.check_close(a.neighborhood_conv(W.tensor(u)), spec.conv(u, [[k]]), 1e-4, f"sums:{r}")
        W.check_eq(W.shape(a(W.tensor(u))), W.shape(W.tensor(u)), f"size:{r}")


def run_multi(W):
    """with several channels a kernel configuration applies to every channel"""
    a = make_multi(W, 2, 4, 1, 0.4)
    fns = [FNS[n] for n in ("gauss", "gauss0", "poly", "dog", "mix2")]
    for kern, r in (("smooth", 2), ("mix6", 1)):
        a.set_kernel_config(kcfg(kern, r))
        m = spec.Model(2, 4, [[spec.kernel(kcfg(kern, r))]] * 4, fns[:4], fns[1:5], 0.4)
        u = C10.field(W, 2, r, 3, "u" + kern)
        W.check_close(a(W.tensor(u)), m.step(W, u), 1e-3, "step:" + kern)


def lap(r, sg=0.5):
    return spec.kernel({"name": "LaplacianOfGaussian", "radius": r, "kernel_kwargs": {"sigma": sg}})


def run_rxn(W, when, r):
    a = cls(W, CLASSES["RxnDfn"])()
    warm(W, a, when, 2)
    a.set_kernel_radius(r)
    W.check_eq(a.get_kernel_radius(), r, "radius")
    u = C10.field(W, 2, r, 4)
    W.check_close(a.neighborhood_conv(W.tensor(u)), spec.conv(u, [[lap(r)]] * 2, 2), 1e-4, "laplacian")
    warm(W, a, when, 2)
    a.set_kernel_config({"name": "LaplacianOfGaussian", "radius": 2, "kernel_kwargs": {"sigma": 0.8}})
    W.check_eq(a.get_kernel_radius(), 2, "radius-config")
    u = C10.field(W, 2, 2, 4, "v")
    W.check_close(a.neighborhood_conv(W.tensor(u)), spec.conv(u, [[lap(2, 0.8)]] * 2, 2), 1e-4, "laplacian-config")
    W.check_close(a.get_params(), [2e-5, 1e-5, 0.0620, 0.0609], 1e-7, "rates-kept")


def run_rxnset(W):
    from .C12 import law
    q = dict(du=W.real("du", 1e-6, 4e-5), dv=W.real("dv", 1e-6, 4e-5), f=0.06, k=0.05, dt=0.5, dx=1 / 200.0)
    u = W.field("u", (1, 2, 3, 4), 0.0, 1.0, spots((1, 2, 3, 4), 4))
    for seq in ("vux", "xuv", "uvx"):
        a = cls(W, CLASSES["RxnDfn"])()
        a.set_params(W.nparray([1e-5, 3e-5, 0.06, 0.05]))
        for s in seq:
            warm(W, a, "stepped", 2)
            {"u": lambda: a.set_diffusion_u(q["du"]), "v": lambda: a.set_diffusion_v(W.tensor(q["dv"])),
             "x": lambda: a.set_dx(q["dx"])}[s]()
        W.check_close([a.get_diffusion_u(), a.get_diffusion_v()], [q["du"], q["dv"]], 1e-9, "read:" + seq)
        W.check_close([a.get_dx()], [q["dx"]], 1e-7, "read-dx:" + seq)
        W.check_close(a(W.tensor(u)), law(W, u, q), 1e-3, "step:" + seq)


IDK = {"name": "SmoothLifeKernel", "radius": 2, "kernel_kwargs": {"r_a": 1.0 / 3.0, "r_i": 0.0}}


def run_identity(W, klass="CCA"):
    """the identity kernel is the one of the last configuration, the cell itself if that names none"""
    n = 7
    e = [[[[1.0 if i == j == 3 else 0.0 for j in range(n)] for i in range(n)]]]

    def cfg(k, idk):
        c = conf(W, klass, 2, k, 0.3)
        return c if idk is None else dict(c, identity_kernel_config=dict(idk))
    gauss = {"name": "Gaussian", "radius": 1, "kernel_kwargs": {"mu": 0.0, "sigma": 0.4}}
    a = new(W, klass, 2, "gauss")
    for i, idk in enumerate((IDK, None, gauss, IDK, {"name": "InnerMoore"}, gauss, None)):
        a.load_config(cfg("gauss", idk))
        a.eval()
        b = new(W, klass, 2, "gauss")
        b.load_config(cfg("gauss", idk))
        b.eval()
        k = spec.kernel(idk) if idk and idk["name"] != "InnerMoore" else [[0, 0, 0], [0, 1.0, 0], [0, 0, 0]]
        W.check_close(a.id_conv(W.tensor(e)), spec.conv(e, [[k]]), 1e-4, f"identity:{i}")
        same(W, a, b, 2, f":{i}", klass)


def run_nokw(W, klass):
    """a kernel without parameters, as the Life-like presets have it, after one with parameters"""
    bare = {"name": "MooreLike", "radius": 1}
    for when in ("new", "stepped"):
        a, b = new(W, klass, 2, "mix6"), new(W, klass, 1, "moore")
        warm(W, a, when)
        a.set_kernel_config(dict(bare))
        same(W, a, b, 1, ":set:" + when, klass)
        p = W.L(a.get_params())
        a.set_params(W.nparray(p))
        same(W, a, b, 1, ":vector:" + when, klass)
        a.set_kernel_config(kcfg("gauss", 2))
        same(W, a, new(W, klass, 2, "gauss"), 2, ":back:" + when, klass)


def run_handed(W):
    """what becomes of a configuration after it was handed over does not matter"""
    for how in ("kernel", "load"):
        a, b = new(W, "CCA", 1, "mix6"), new(W, "CCA", 2, "gauss")
        c = conf(W, "CCA", 2, "gauss", 0.3)
        k = c["neighborhood_kernel_config"]
        if how == "kernel":
            a.set_kernel_config(k)
        else:
            a.load_config(c)
        k["kernel_kwargs"]["mu"] = 0.9
        k["radius"] = 1
        same(W, a, b, 2, ":" + how)
        a.set_kernel_radius(3)
        b.set_kernel_radius(3)
        same(W, a, b, 3, ":resized:" + how)


def run_independent(W):
    """changing one automaton leaves every other one alone"""
    u = C10.field(W, 1, 2)
    for k in ("CCA", "NCA"):
        c = kcfg("gauss", 2)
        a, b = new(W, k, 1, "mix6"), new(W, k, 1, "mix6")
        a.set_kernel_config(c)
        b.set_kernel_config(c)
        before = step(W, a, u)
        b.set_kernel_radius(1)
        b.set_dt(0.8)
        b.set_params(W.nparray([0.3] * len(W.L(b.get_params()))))
        W.check_close(step(W, a, u), before, 1e-6, "step:" + k)
        W.check_eq([a.get_kernel_radius(), c["radius"]], [2, 2], "radius:" + k)
        a.set_kernel_radius(2)
        W.check_close(step(W, a, u), before, 1e-6, "again:" + k)


def run_modes(W):
    """a new kernel is applied under the boundary rule the automaton was built with"""
    for mode in ("zeros", "replicate", "reflect"):
        a = build(W, "CCA", 1, fcfg(W, "gauss"), fcfg(W, "gauss"), kcfg("gauss", 1), 0.3, conv_mode=mode)
        a.set_kernel_radius(2)
        u = C10.field(W, 1, 2, 3, "u" + mode)
        m = spec.Model(1, 1, [[spec.kernel(kcfg("gauss", 2))]], [FNS["gauss"]], [FNS["gauss"]], 0.3, None, mode)
        W.check_close(a(W.tensor(u)), m.step(W, u), 1e-3, "step:" + mode)
