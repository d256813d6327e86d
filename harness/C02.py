"""C02: one step of a continuous automaton is the documented two-function update."""
from . import spec
from .common import FNS, fcfg, kcfg, make, make_multi, model, model_multi, sparse

BOUNDS = ("one step (two in some cases) from an arbitrary state in [0,1]; all cells of 4x5..6x7 grids symbolic, larger "
          "grids (up to 33x20) with up to 12 symbolic cells; kernel radius 1-4; 1-5 external and 1-8 internal channels; "
          "batch 1-3; dt, mu, sigma symbolic in the *-sym cases")
OUTSIDE = "GPU execution; growth-function networks (ca_mode other than 'functional')"
ASSUMPTIONS = ["states in [0,1]", "dt in [0.01,2]", "sigma >= 0.02"]


def cases(tier):
    out = []
    for g in FNS:
        out.append((f"fn-{g}", dict(kind="single", gen=g, per="gauss", kern="gauss", r=1, shape=(1, 1, 3, 4))))
        out.append((f"per-{g}", dict(kind="single", gen="gauss0", per=g, kern="moore", r=1, shape=(1, 1, 3, 4))))
    for k in ("gauss", "mix", "mix6", "moore", "dog", "cos", "smooth"):
        out.append((f"kern-{k}", dict(kind="single", gen="gauss", per="poly", kern=k, r=2, shape=(1, 1, 5, 6))))
    for mode in ("circular", "zeros", "reflect", "replicate"):
        out.append((f"mode-{mode}", dict(kind="single", gen="poly", per="gauss", kern="mix6", r=2, shape=(2, 1, 6, 5),
                                         mode=mode)))
    for ext, inn in ((1, 2), (1, 3), (2, 2), (2, 4), (3, 3), (2, 3), (3, 2), (4, 4), (4, 8), (5, 5), (1, 9)):
        sh = (1, ext, 3, 3) if ext < 4 else (1, ext, 3, 3)
        out.append((f"chan-{ext}-{inn}", dict(kind="multi", ext=ext, inn=inn, r=1, shape=sh,
                                              nsym=None if ext * inn <= 4 else 12)))
    out.append(("chan-zeros-2-4", dict(kind="multi", ext=2, inn=4, r=1, shape=(1, 2, 3, 4), mode="zeros", nsym=10)))
    out.append(("chan-4-4-batch", dict(kind="multi", ext=4, inn=4, r=1, shape=(3, 4, 4, 3), nsym=16)))
    out.append(("thr", dict(kind="multi", ext=4, inn=4, r=1, shape=(1, 4, 3, 3), nsym=12,
                            kwargs={"alive_threshold": 0.3}, thr=0.3)))
    out.append(("big", dict(kind="single", gen="gauss", per="dog", kern="gauss", r=4, shape=(1, 1, 33, 20), nsym=10)))
    out.append(("batch9", dict(kind="single", gen="gauss", per="dog", kern="gauss", r=2, shape=(9, 1, 7, 5), nsym=18)))
    out.append(("two-steps", dict(kind="single", gen="poly", per="mix2", kern="gauss", r=1, shape=(1, 1, 6, 6), nsym=2,
                                  steps=2)))
    out.append(("dt-sym", dict(kind="single", gen="gauss", per="poly1", kern="gauss", r=1, shape=(1, 1, 3, 4), dt="sym")))
    out.append(("dt-set", dict(kind="single", gen="gauss", per="poly1", kern="gauss", r=1, shape=(1, 1, 3, 4), dt="set")))
    out.append(("musigma-sym", dict(kind="sym", shape=(1, 1, 3, 3), nsym=4)))
    out.append(("idk-moore", dict(kind="single", gen="gauss", per="poly", kern="gauss", r=1, shape=(1, 1, 4, 4),
                                  idk={"name": "MooreLike", "radius": 1})))
    out.append(("idk-smooth", dict(kind="single", gen="gauss", per="poly", kern="smooth", r=3, shape=(1, 1, 7, 8), nsym=10,
                                   idk={"name": "Gaussian", "radius": 2, "kernel_kwargs": {"mu": 0.0, "sigma": 0.4}})))
    out.append(("half", dict(kind="single", gen="gauss", per="poly", kern="gauss", r=1, shape=(1, 1, 4, 5), dtype="float16")))
    out.append(("half4", dict(kind="multi", ext=4, inn=4, r=1, shape=(1, 4, 3, 3), nsym=12, dtype="float16")))
    out.append(("weights", dict(kind="weights")))
    for g in ("ident", "relu", "tanh", "poly"):
        out.append((f"wild-{g}", dict(kind="single", gen=g, per=g, kern="gauss", r=1, shape=(1, 1, 3, 4), nsym=6, lo=-0.5, hi=1.5)))
    for mode in ("circular", "zeros", "reflect"):
        out.append((f"custom-{mode}", dict(kind="custom", mode=mode, shape=(1, 2, 5, 6))))
    out.append(("custom-big", dict(kind="custom", mode="circular", shape=(2, 2, 6, 9), r=2)))
    for ch in (5, 6):
        out.append((f"alive-{ch}", dict(kind="multi", ext=ch, inn=1, r=1, shape=(1, ch, 3, 3), nsym=9 * ch)))
    if tier == "thorough":
        out.append(("big2", dict(kind="single", gen="gauss", per="dog", kern="gauss", r=6, shape=(1, 1, 64, 64), nsym=20)))
        out.append(("full-6x7", dict(kind="single", gen="gauss", per="dog", kern="mix6", r=2, shape=(1, 1, 6, 7))))
        out.append(("full-batch", dict(kind="single", gen="mix3", per="double", kern="gauss", r=1, shape=(3, 1, 5, 4))))
        for ext, inn in ((1, 6), (3, 6), (3, 9), (4, 5), (6, 6), (5, 3), (1, 12)):
            out.append((f"chan-{ext}-{inn}", dict(kind="multi", ext=ext, inn=inn, r=2, shape=(2, ext, 5, 5), nsym=20)))
        out.append(("three-steps", dict(kind="single", gen="poly", per="mix2", kern="gauss", r=1, shape=(1, 1, 7, 7), nsym=1,
                                        steps=3)))
        for g in FNS:
            for p in ("dog1", "mix3", "smooth", "double"):
                out.append((f"pair-{g}-{p}", dict(kind="single", gen=g, per=p, kern="mix6", r=1, shape=(1, 1, 3, 4))))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def n_of(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def run_single(W, gen, per, kern, r, shape, mode="circular", nsym=None, steps=1, dt=0.1, idk=None, dtype="float32",
               lo=0.0, hi=1.0):
    setdt = dt == "set"
    if dt in ("sym", "set"):
        dt = W.real("dt", 0.01, 2.0)
    ca = make(W, "CCA", gen, per, kern, r, 0.25 if setdt else dt, idk, {"conv_mode": mode})
    if setdt:
        ca.set_dt(dt)
    m = model(gen, per, kern, r, dt, idk, mode)
    go(W, ca, m, shape, nsym, steps, dtype, lo, hi)


def run_custom(W, mode, shape, r=1):
    """kernels handed over as tensors, with no symmetry at all: a different one per neighborhood channel"""
    n = 2 * r + 1
    ks = [[[W.real(f"k{c}", -1.0, 1.0) if (i, j) == (0, n - 1) else 0.1 * ((i * n + j + 3 * c) % 7) - 0.2 for j in range(n)]
           for i in range(n)] for c in range(2)]
    ik = [[0.0, 0.3, 0.0], [0.1, 0.5, -0.2], [0.0, 0.0, 0.25]]
    ca = cls_cca(W)(kernel_radius=r, external_channels=2, internal_channels=2, conv_mode=mode)
    ca.add_neighborhood_kernel(W.tensor([[k] for k in ks]))
    ca.initialize_neighborhood_layer()
    ca.add_identity_kernel(kernel=W.tensor([[ik]]))
    ca.initialize_id_layer()
    ca.genesis_fns, ca.persistence_fns = [], []
    for c in range(2):
        ca.add_genesis_fn(fcfg(W, ("poly", "ident")[c]))
        ca.add_persistence_fn(fcfg(W, ("poly1", "poly")[c]))
    ca.include_parameters()
    ca.set_dt(0.3)
    ca.no_grad()
    m = spec.Model(2, 2, [[k] for k in ks], [FNS["poly"], FNS["ident"]], [FNS["poly1"], FNS["poly"]], 0.3, [[ik]], mode)
    go(W, ca, m, shape, 1, 1)


def run_multi(W, ext, inn, r, shape, mode="circular", nsym=None, steps=1, kwargs=None, thr=0.1, dtype="float32"):
    ca = make_multi(W, ext, inn, r, 0.2, mode=mode, kwargs=kwargs)
    m = model_multi(ext, inn, r, 0.2, mode, thr=thr)
    go(W, ca, m, shape, nsym, steps, dtype)


def go(W, ca, m, shape, nsym, steps, dtype="float32", lo=0.0, hi=1.0):
    n = n_of(shape)
    u = W.field("u", shape, lo, hi, None if nsym is None else sparse(n, nsym, max(1, n // nsym - 1)))
    if shape[1] >= 4:
        # keep away from the exact threshold: floats and reals agree on either side
        for b in range(shape[0]):
            for row in u[b][3]:
                for x in row:
                    W.assume(abs(x - m.thr) >= 1e-4)
    t = W.tensor(u, dtype)
    ref = u
    for s in range(steps):
        t = ca(t)
        ref = m.step(W, ref)
        tol = 1e-3 if dtype == "float32" else 2e-2
        W.check_close(t, ref, tol, f"law:step{s + 1}")
        if s + 1 < steps:
            ref = W.L(t)


def run_sym(W, shape, nsym):
    mu, sg = W.real("mu", 0.0, 1.0), W.real("sigma", 0.02, 0.5)
    pmu, psg = W.real("pmu", 0.0, 1.0), W.real("psigma", 0.02, 0.5)
    ca = cls_cca(W)(kernel_radius=1)
    cfg = {"neighborhood_kernel_config": kcfg("gauss", 1), "dt": 0.1,
           "genesis_config": {"name": "Gaussian", "mu": mu, "sigma": sg, "mode": 1},
           "persistence_config": {"name": "Gaussian", "mu": pmu, "sigma": psg, "mode": 1}}
    ca.load_config(cfg)
    m = spec.Model(1, 1, [[spec.kernel(kcfg("gauss", 1))]], [dict(cfg["genesis_config"])], [dict(cfg["persistence_config"])], 0.1)
    go(W, ca, m, shape, nsym, 1)


def cls_cca(W):
    return W.imp("yuca.ca.continuous").CCA


def run_weights(W):
    """an automaton with default growth functions (random draws arbitrary) still mixes channels with equal weights"""
    CCA = cls_cca(W)
    for ext, inn in ((1, 1), (1, 4), (2, 4), (3, 3)):
        ca = CCA(kernel_radius=1, external_channels=ext, internal_channels=inn)
        wt = W.L(ca.weights_layer.weight)
        W.check_eq(spec.dims(wt), (ext, inn, 1, 1), "weights:shape")
        W.check_close(wt, [[[[1.0 / (ext * inn)]]] * inn] * ext, 1e-5, "weights")
