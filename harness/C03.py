"""C03: the variant automata follow their own laws (growth-only, second-order, random step, neural)."""
from . import spec
from .common import CLASSES, cls, make, make_multi, model, model_multi, off_threshold, spots

BOUNDS = ("one step for growth-only/neural/random-step automata, two to three for the second-order one; grids 3x4..6x7 "
          "with up to 12 symbolic cells (all cells for 3x3 / 3x4); 1-4 channels; random draw and dt symbolic")
OUTSIDE = "dropout noise while training (the neural automaton is put in evaluation mode); GPU execution"
ASSUMPTIONS = ["states in [0,1]", "alpha values at least 1e-4 away from the alive threshold"]


def cases(tier):
    out = []
    for g in ("gauss", "gauss0", "dog", "double", "mix2", "poly", "relu", "tanh", "smooth", "mix3"):
        out.append((f"lenia-{g}", dict(kind="lenia", gen=g)))
    for mode in ("zeros", "reflect", "replicate"):
        out.append((f"lenia-{mode}", dict(kind="lenia", gen="gauss", mode=mode, kern="mix6", r=2, shape=(1, 1, 5, 6))))
    out.append(("lenia-2-4", dict(kind="lenia", multi=(2, 4), shape=(1, 2, 3, 4), k=12)))
    out.append(("lenia-4-4", dict(kind="lenia", multi=(4, 4), shape=(2, 4, 3, 3), k=12)))
    out.append(("lenia-half", dict(kind="lenia", gen="gauss", dtype="float16")))
    out.append(("meta", dict(kind="meta", shape=(1, 1, 3, 4), k=4)))
    out.append(("meta-batch", dict(kind="meta", shape=(2, 1, 3, 3), k=3)))
    out.append(("meta-2-4", dict(kind="meta", multi=(2, 4), shape=(1, 2, 3, 3), k=4)))
    out.append(("meta-4-4", dict(kind="meta", multi=(4, 4), shape=(1, 4, 3, 3), k=4)))
    out.append(("meta-resize", dict(kind="meta_resize")))
    out.append(("rstep", dict(kind="rstep", shape=(1, 1, 3, 4), k=8)))
    out.append(("rstep-4-4", dict(kind="rstep", multi=(4, 4), shape=(1, 4, 3, 3), k=6)))
    out.append(("rstep-batch", dict(kind="rstep", shape=(2, 1, 3, 3), k=6)))
    for act in ("Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity"):
        out.append((f"nca-{act}", dict(kind="nca", act=act, ext=1, inn=1, hid=2, shape=(1, 1, 3, 3), k=3)))
    out.append(("nca-2-3", dict(kind="nca", act="Tanh", ext=2, inn=3, hid=3, shape=(1, 2, 3, 3), k=3)))
    out.append(("nca-4-4", dict(kind="nca", act="Gaussian", ext=4, inn=4, hid=2, shape=(2, 4, 3, 3), k=5)))
    out.append(("nca-params", dict(kind="nca", act="Tanh", ext=1, inn=1, hid=2, shape=(1, 1, 3, 3), k=2, setp=True)))
    if tier == "thorough":
        out.append(("meta-3", dict(kind="meta", shape=(1, 1, 4, 5), k=2, steps=3)))
        out.append(("meta-big", dict(kind="meta", shape=(2, 1, 6, 7), k=12)))
        out.append(("lenia-big", dict(kind="lenia", gen="mix3", kern="gauss", r=4, shape=(2, 1, 20, 17), k=20)))
        for g in ("gauss", "dog", "poly"):
            for mode in ("zeros", "reflect", "replicate"):
                out.append((f"lenia-{mode}-{g}", dict(kind="lenia", gen=g, mode=mode, kern="cos", r=2, shape=(2, 1, 5, 6))))
        out.append(("nca-big", dict(kind="nca", act="SiLU", ext=3, inn=3, hid=6, shape=(2, 3, 5, 4), k=6)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def state(W, shape, k, name="u"):
    u = W.field(name, shape, 0.0, 1.0, None if k is None else spots(shape, k))
    off_threshold(W, u)
    return u


def both(W, klass, multi, gen="gauss", per="poly", kern="gauss", r=1, dt=0.3, mode="circular"):
    if multi:
        return make_multi(W, *multi, 1, dt, klass=klass, mode=mode), model_multi(*multi, 1, dt, mode)
    return make(W, klass, gen, per, kern, r, dt, None, {"conv_mode": mode}), model(gen, per, kern, r, dt, None, mode)


def run_lenia(W, gen="gauss", mode="circular", kern="gauss", r=1, shape=(1, 1, 3, 4), k=None, multi=None, dtype="float32"):
    ca, m = both(W, "Lenia", multi, gen, "gauss0", kern, r, 0.3, mode)
    u = state(W, shape, k)
    out = ca(W.tensor(u, dtype))
    if shape[1] >= 4:
        u = spec.alive(W, u, m.thr)
    nb = spec.conv(u, m.nbk, m.groups, m.mode)
    fs = [spec.act(W, c) for c in m.gens]
    B, K, H, Wd = spec.dims(nb)
    g = [[[[fs[c](nb[b][c][i][j]) for j in range(Wd)] for i in range(H)] for c in range(K)] for b in range(B)]
    upd = spec.mix(g, m.weights)
    W.check_close(out, spec.bmap(lambda x, d: W.clamp(x + 0.3 * d, 0.0, 1.0), u, upd),
                  1e-3 if dtype == "float32" else 2e-2, "growth-law")


def run_meta(W, shape, k, multi=None, steps=2):
    ca, m = both(W, "MetaCA", multi, dt=0.3)
    d = spec.bmap(lambda x: 0.0, [[[[0.0] * shape[3]] * shape[2]] * shape[1]] * shape[0])
    for s in range(steps):
        u = state(W, shape, k, f"u{s}")
        out = ca(W.tensor(u))
        un, _, _, upd, _ = m.parts(W, u)
        d = spec.bmap(lambda a, b: a + 0.25 * b, d, upd)
        ref = spec.bmap(lambda x, v: W.clamp(x + 0.3 * v, 0.0, 1.0), un, d)
        W.check_close(out, ref, 1e-3, f"meta-law:{s + 1}")
        W.check_close(ca.dgrid, d, 1e-3, f"meta-velocity:{s + 1}")
    # after reset the accumulated velocity is gone
    ca.reset()
    u = state(W, shape, k, "v")
    un, _, _, upd, _ = m.parts(W, u)
    ref = spec.bmap(lambda x, v: W.clamp(x + 0.3 * 0.25 * v, 0.0, 1.0), un, upd)
    W.check_close(ca(W.tensor(u)), ref, 1e-3, "meta-after-reset")


def run_meta_resize(W):
    """a state of another shape starts with zero velocity"""
    ca, m = both(W, "MetaCA", None, dt=0.3)
    for s, sh in enumerate([(1, 1, 3, 4), (1, 1, 4, 3), (2, 1, 4, 3)]):
        u = state(W, sh, 4, f"u{s}")
        un, _, _, upd, _ = m.parts(W, u)
        ref = spec.bmap(lambda x, v: W.clamp(x + 0.3 * 0.25 * v, 0.0, 1.0), un, upd)
        W.check_close(ca(W.tensor(u)), ref, 1e-3, f"meta-resize:{s}")


def run_rstep(W, shape, k, multi=None):
    ca, m = both(W, "RandomStepCA", multi, dt=0.3)
    r = []
    t0 = 0.0
    W.rng_mode = lambda lib, kind, shape, name: "sym" if lib == "np" else "const"
    for s in range(2):
        n = len(W.rng_log)
        u = state(W, shape, k if s == 0 else 2, f"u{s}")
        out = ca(W.tensor(u))
        draws = [x for x in W.rng_log[n:]]
        W.check_eq([x[2] for x in draws], ["u"], f"one-uniform-draw:{s}")
        z = W.real(draws[0][0] + ":0", 0.0, 1.0 - 1e-6)
        dt = 0.05 + 0.2 * z
        un, _, _, upd, _ = m.parts(W, u)
        W.check_close(out, spec.bmap(lambda x, v: W.clamp(x + dt * v, 0.0, 1.0), un, upd), 1e-3, f"random-step-law:{s}")
        W.check_range([ca.dt], 0.05, 0.25, 1e-6, f"random-dt:{s}")
        t0 = t0 + dt
        W.check_close([ca.t_count], [t0], 1e-5, f"random-clock:{s}")


def act(W, name, ps=()):
    if name == "Gaussian":
        return lambda x: spec.gauss(W, x, ps[0], ps[1])
    return {"Tanh": lambda x: W.tanh(x), "ReLU": lambda x: W.max(x, 0.0), "SiLU": lambda x: x * W.sigmoid(x),
            "ELU": lambda x: W.ite(x > 0, x, W.exp(x) - 1.0), "Sigmoid": lambda x: W.sigmoid(x), "Identity": lambda x: x}[name]


def run_nca(W, act, ext, inn, hid, shape, k, setp=False):
    ca = cls(W, CLASSES["NCA"])(kernel_radius=1, hidden_channels=hid, external_channels=ext, internal_channels=inn, activation=act)
    ca.eval()
    na = 2 if act == "Gaussian" else 0          # the Gaussian activation has its own two parameters
    n = (inn + inn) * hid + na + hid * hid + na + hid * ext
    if setp:
        ws = [W.real(f"w:{i}", -1.0, 1.0) if i % 3 == 0 else 0.1 * (i % 5) - 0.2 for i in range(n)]
        kp = [0.9, 0.4, 0.2, 0.3, 0.7, 0.1, 0.5, 0.5, 0.15]
        ca.set_params(W.nparray(ws + kp))
    else:
        ws = [x for x in W.L(ca.get_params())][:n]
        kp = [1 / 3, 0.5, 0.15] * 3
    it = iter(ws)
    w1 = [[next(it) for _ in range(inn + inn)] for _ in range(hid)]
    f1 = globals()["act"](W, act, [next(it) for _ in range(na)])
    w2 = [[next(it) for _ in range(hid)] for _ in range(hid)]
    f2 = globals()["act"](W, act, [next(it) for _ in range(na)])
    w3 = [[next(it) for _ in range(hid)] for _ in range(ext)]
    kern = spec.kernel({"name": "GaussianMixture", "radius": 1, "kernel_kwargs": {"parameters": kp}})
    m = spec.Model(ext, inn, [[kern]], [], [], 0.1)
    u = state(W, shape, k)
    out = ca(W.tensor(u))
    if shape[1] >= 4:
        u = spec.alive(W, u, 0.1)
    idn = spec.conv(u, m.idk, m.groups)
    nb = spec.conv(u, m.nbk, m.groups)
    B, _, H, Wd = spec.dims(u)
    ref = [[[[None] * Wd for _ in range(H)] for _ in range(ext)] for _ in range(B)]
    for b in range(B):
        for i in range(H):
            for j in range(Wd):
                x = [idn[b][c][i][j] for c in range(inn)] + [nb[b][c][i][j] for c in range(inn)]
                h = [f1(dot(w, x)) for w in w1]
                h = [f2(dot(w, h)) for w in w2]
                for e in range(ext):
                    ref[b][e][i][j] = W.clamp(u[b][e][i][j] + 0.1 * W.tanh(dot(w3[e], h)), 0.0, 1.0)
    W.check_close(out, ref, 1e-3, "neural-law")


def dot(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s = s + x * y
    return s
