"""Shared builders for the step properties (no reference to implementation internals beyond its public API)."""
from . import spec

G1 = {"name": "Gaussian", "mu": 0.15, "sigma": 0.05, "mode": 1}
P1 = {"name": "Gaussian", "mu": 0.35, "sigma": 0.08, "mode": 1}
FNS = {
    "gauss": {"name": "Gaussian", "mu": 0.3, "sigma": 0.12, "mode": 1},
    "gauss0": {"name": "Gaussian", "mu": 0.3, "sigma": 0.12, "mode": 0},
    "dog": {"name": "DoGaussian", "mu": 0.25, "sigma": 0.15, "mode": 0, "dx": 0.05},
    "dog1": {"name": "DoGaussian", "mu": 0.25, "sigma": 0.15, "mode": 1},
    "double": {"name": "DoubleGaussian", "mu": [0.2, 0.6], "sigma": [0.1, 0.07], "mode": 1},
    "double0": {"name": "DoubleGaussian", "mu": [0.2, 0.6], "sigma": [0.1, 0.07], "mode": 0},
    "mix2": {"name": "GaussianMixture", "parameters": [0.2, 0.1, 0.5, 0.2], "mode": 1},
    "mix3": {"name": "GaussianMixture", "parameters": [0.7, 0.2, 0.1, -0.4, 0.5, 0.2], "mode": 0},
    "poly": {"name": "Polynomial", "coefficients": [-0.5, 2.0, -1.5, 0.25], "mode": 0},
    "poly1": {"name": "Polynomial", "coefficients": [0.2, 0.5, -0.3], "mode": 1},
    "relu": {"name": "ReLU"},
    "tanh": {"name": "Tanh"},
    "ident": {"name": "Identity"},
    "smooth": {"name": "SmoothIntervals", "parameters": [[0.2, 0.35], [0.6, 0.8]], "alpha": 0.15, "mode": 1},
    "smooth0": {"name": "SmoothIntervals", "parameters": [[0.2, 0.35]], "alpha": 0.2, "mode": 0},
}
KERN = {
    "gauss": {"name": "Gaussian", "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}},
    "mix": {"name": "GaussianMixture", "kernel_kwargs": {"parameters": [0.5, 0.5, 0.15]}},
    "mix6": {"name": "GaussianMixture", "kernel_kwargs": {"parameters": [0.9, 0.3, 0.12, 0.4, 0.8, 0.2]}},
    "moore": {"name": "MooreLike", "kernel_kwargs": {}},
    "dog": {"name": "DoGaussian", "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}},
    "cos": {"name": "CosOverX2", "kernel_kwargs": {"mu": 0.5, "omega": 12.56}},
    "smooth": {"name": "SmoothLifeKernel", "kernel_kwargs": {"r_a": 1.0, "r_i": 1.0 / 3.0}},
}


def kcfg(name, r):
    c = dict(KERN[name], radius=r)
    c["kernel_kwargs"] = dict(c["kernel_kwargs"])
    return c


def fcfg(W, name):
    """config in the form the code takes (tensors where it needs tensors)"""
    c = dict(FNS[name])
    if c["name"] == "DoubleGaussian":
        c["mu"] = W.tensor(c["mu"])
        c["sigma"] = W.tensor(c["sigma"])
    if c["name"] == "SmoothIntervals":
        c["parameters"] = W.tensor(c["parameters"])
    return c


def cls(W, name):
    mod, _, c = name.rpartition(".")
    return getattr(W.imp(mod), c)


CLASSES = {
    "CCA": "yuca.ca.continuous.CCA", "Lenia": "yuca.lenia.Lenia", "CODE": "yuca.code.CODE",
    "MetaCA": "yuca.metaca.MetaCA", "RandomStepCA": "yuca.random_step_ca.RandomStepCA",
    "NCA": "yuca.ca.neural.NCA", "RxnDfn": "yuca.ca.reaction_diffusion.RxnDfn",
}


def make(W, klass="CCA", gen="gauss", per="gauss", kern="gauss", r=1, dt=0.1, idk=None, kwargs=None):
    """a single-channel automaton from a named configuration"""
    ca = cls(W, CLASSES[klass])(kernel_radius=r, **(kwargs or {}))
    cfg = {"neighborhood_kernel_config": kcfg(kern, r), "genesis_config": fcfg(W, gen),
           "persistence_config": fcfg(W, per), "dt": dt}
    if idk:
        cfg["identity_kernel_config"] = dict(idk)
    ca.load_config(cfg)
    return ca


def model(gen="gauss", per="gauss", kern="gauss", r=1, dt=0.1, idk=None, mode="circular", thr=0.1):
    return spec.Model(1, 1, [[spec.kernel(kcfg(kern, r))]], [FNS[gen]], [FNS[per]], dt,
                      [[spec.kernel(idk)]] if idk else None, mode, thr)


ROT = ["gauss", "gauss0", "poly", "dog", "mix2", "double", "tanh", "mix3"]


def make_multi(W, ext, inn, r=1, dt=0.1, klass="CCA", mode="circular", fns=None, kernels=None, kwargs=None):
    """a multi-channel automaton: per-channel kernels and growth functions through the public API"""
    kw = dict(kernel_radius=r, external_channels=ext, internal_channels=inn, conv_mode=mode, **(kwargs or {}))
    ca = cls(W, CLASSES[klass])(**kw)
    fns = fns or [(ROT[k % len(ROT)], ROT[(k + 1) % len(ROT)]) for k in range(inn)]
    ks = multi_kernels(inn, r, kernels)
    ca.add_neighborhood_kernel(W.tensor([[k] for k in ks]))
    ca.initialize_neighborhood_layer()
    ca.genesis_fns, ca.persistence_fns = [], []
    for g, p in fns:
        ca.add_genesis_fn(fcfg(W, g))
        ca.add_persistence_fn(fcfg(W, p))
    ca.include_parameters()
    ca.set_dt(dt)
    ca.no_grad()
    return ca


def multi_kernels(inn, r, kernels=None):
    names = kernels or ["gauss", "moore", "mix6", "cos"]
    return [spec.kernel(kcfg(names[k % len(names)], r)) for k in range(inn)]


def model_multi(ext, inn, r=1, dt=0.1, mode="circular", fns=None, kernels=None, thr=0.1):
    fns = fns or [(ROT[k % len(ROT)], ROT[(k + 1) % len(ROT)]) for k in range(inn)]
    return spec.Model(ext, inn, [[k] for k in multi_kernels(inn, r, kernels)], [FNS[g] for g, _ in fns],
                      [FNS[p] for _, p in fns], dt, None, mode, thr)


def roll(u, di, dj):
    B, C, H, Wd = spec.dims(u)
    return [[[[u[b][c][(i - di) % H][(j - dj) % Wd] for j in range(Wd)] for i in range(H)] for c in range(C)]
            for b in range(B)]


def sparse(n, k, stride=7, start=0):
    """k flat positions spread over n"""
    out, p = [], start % n
    for _ in range(min(k, n)):
        while p in out:
            p = (p + 1) % n
        out.append(p)
        p = (p + stride) % n
    return out


# -- ready-made automata for the class-generic properties ------------------------------------
def zoo(W, name, mode="circular"):
    """(automaton, external channels, kernel radius); deterministic given the random stream"""
    kw = {"conv_mode": mode}
    if name == "cca":
        return make(W, "CCA", "gauss", "poly", "mix6", 1, 0.3, kwargs=kw), 1, 1
    if name == "cca-r2":
        return make(W, "CCA", "dog", "mix2", "gauss", 2, 0.5, kwargs=kw), 1, 2
    if name == "cca-smooth":
        return make(W, "CCA", "smooth", "smooth0", "smooth", 3, 0.7,
                    {"name": "SmoothLifeKernel", "radius": 2, "kernel_kwargs": {"r_a": 0.5, "r_i": 0.0}}, kwargs=kw), 1, 3
    if name == "cca-poly":
        return make(W, "CCA", "poly1", "double", "moore", 1, 1.0, kwargs=kw), 1, 1
    if name == "cca-2-4":
        return make_multi(W, 2, 4, 1, 0.4, mode=mode), 2, 1
    if name == "cca-3-2":
        return make_multi(W, 3, 2, 1, 0.4, mode=mode), 3, 1
    if name == "cca-4-4":
        return make_multi(W, 4, 4, 1, 0.4, mode=mode), 4, 1
    if name == "lenia":
        return make(W, "Lenia", "gauss", "gauss", "mix6", 2, 0.2, kwargs=kw), 1, 2
    if name == "meta":
        return make(W, "MetaCA", "gauss", "poly", "gauss", 1, 0.3, kwargs=kw), 1, 1
    if name == "meta4":
        return make_multi(W, 4, 4, 1, 0.4, klass="MetaCA", mode=mode), 4, 1
    if name == "rstep":
        return make(W, "RandomStepCA", "gauss", "poly", "gauss", 1, 0.3, kwargs=kw), 1, 1
    if name == "rstep4":
        return make_multi(W, 4, 4, 1, 0.4, klass="RandomStepCA", mode=mode), 4, 1
    if name == "code":
        # 0.5 -> 0.375 -> 0.28125 -> fallback 0.25
        return make(W, "CODE", "poly", "gauss0", "gauss", 1, 0.3, kwargs=dict(kw, min_dt=0.25)), 1, 1
    if name == "code4":
        return make_multi(W, 4, 4, 1, 0.4, klass="CODE", mode=mode, kwargs={"min_dt": 0.3}), 4, 1
    if name == "rxn":
        return cls(W, CLASSES["RxnDfn"])(), 2, 1     # always wraps: it takes no boundary mode
    if name in ("nca", "nca2", "nca4"):
        ext, inn = {"nca": (1, 1), "nca2": (2, 2), "nca4": (4, 4)}[name]
        ca = cls(W, CLASSES["NCA"])(kernel_radius=1, hidden_channels=2, external_channels=ext, internal_channels=inn,
                                    conv_mode=mode)
        ca.eval()
        return ca, ext, 1
    raise ValueError(name)


ZOO = ["cca", "cca-r2", "cca-smooth", "cca-poly", "cca-2-4", "cca-3-2", "cca-4-4", "lenia", "meta", "meta4", "rstep", "rstep4",
       "code", "code4", "rxn", "nca", "nca2", "nca4"]


def spots(shape, k):
    """k flat positions for symbolic cells, spread from the first cell to the last (so that every channel gets some)"""
    n = 1
    for s in shape:
        n *= s
    if k >= n:
        return list(range(n))
    if k == 1:
        return [0]
    return sorted({round(i * (n - 1) / (k - 1)) for i in range(k)})


def off_threshold(W, u, thr=0.1):
    """keep the alpha channel away from the exact threshold"""
    if len(u[0]) >= 4:
        for b in u:
            for row in b[3]:
                for x in row:
                    W.assume(abs(x - thr) >= 1e-4)
