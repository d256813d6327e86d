"""C11: an automaton restored from a saved configuration is the one that was saved."""
from .common import CLASSES, cls, fcfg, kcfg, make_multi, zoo, off_threshold, spots
from .C10 import CONT, FN, KERN, MU, SG, build, fn_vector, impulse, kern_vector, field
from . import C10

BOUNDS = ("every class x every growth-function family x every kernel family, radius 1-3, every growth parameter, the time step, "
          "the thresholds and (for the neighborhood sums) the kernel parameters arbitrary; saved after loading, after setters, "
          "after set_params, after a default construction; restored into automata built differently; one step on a 3x4 to 7x7 "
          "grid with up to 3 symbolic cells")
OUTSIDE = "the byte format of the file (a saved dict is read back as an equal dict)"
ASSUMPTIONS = ["numpy.save/load of a dict return an equal, independent dict"]


def cases(tier):
    out = []
    for k in KERN:
        out.append((f"kern-{k}", dict(kind="cca", kern=k)))
    for f in FN:
        out.append((f"fn-{f}", dict(kind="cca", gen=f, per="gauss")))
        out.append((f"fn2-{f}", dict(kind="cca", gen="mix2", per=f)))
    for k in CONT[1:] + ("Lenia",):
        out.append((f"{k}", dict(kind="cca", klass=k, gen="mix3")))
    for mode in ("zeros", "replicate"):
        out.append((f"mode-{mode}", dict(kind="cca", mode=mode)))
    for k in ("CCA", "Lenia", "NCA", "MetaCA"):
        out.append((f"default-{k}", dict(kind="default", klass=k)))
    for how in ("params", "setters", "radius", "kernel"):
        for k in ("CCA", "NCA"):
            out.append((f"after-{how}-{k}", dict(kind="after", how=how, klass=k)))
    out.append(("after-diffusion", dict(kind="rxn", r=1)))
    out.append(("rxn-r2", dict(kind="rxn", r=2)))
    for k in ("smooth", "inner", "gauss5"):
        out.append((f"identity-{k}", dict(kind="identity", idk=k)))
        out.append((f"identity-nca-{k}", dict(kind="identity", idk=k, klass="NCA")))
    for a in ("Tanh", "ReLU", "Sigmoid", "Gaussian", "Identity"):
        out.append((f"nca-{a}", dict(kind="nca", act=a)))
    out.append(("nca-4", dict(kind="nca", act="Tanh", ext=4)))
    out.append(("nca-3-6", dict(kind="nca", act="Gaussian", ext=2, inn=4)))
    out.append(("file", dict(kind="file")))
    out.append(("file-over", dict(kind="over")))
    out.append(("snapshot", dict(kind="snapshot")))
    out.append(("shared", dict(kind="shared")))
    for f in ("gauss", "dog", "double", "mix2", "mix3", "poly"):
        out.append((f"wide-{f}", dict(kind="wide", f=f)))
    out.append(("settings", dict(kind="settings")))
    out.append(("multi-channel", dict(kind="multi")))
    if tier == "thorough":
        for f in FN:
            for g in FN:
                for k in CONT:
                    out.append((f"all-{f}-{g}-{k}", dict(kind="cca", gen=f, per=g, klass=k, kern="mix6")))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def step(W, ca, u):
    return W.L(C10.step(W, ca, u))


def other(W, klass, **kw):
    """an automaton of the class with nothing in common with the saved one"""
    return cls(W, CLASSES[klass])(kernel_radius=4, conv_mode="circular", kernel_peaks=2, **kw)


def same(W, a, b, u, ext, r, tag=""):
    W.check_close(b.get_params(), W.L(a.get_params()), 1e-5, "parameters" + tag)
    W.check_eq(b.get_kernel_radius(), a.get_kernel_radius(), "radius" + tag)
    W.check_close([b.get_dt()], [a.get_dt()], 1e-6, "dt" + tag)
    W.check_close(impulse(W, b, ext, r), W.L(impulse(W, a, ext, r)), 1e-4, "kernel" + tag)
    W.check_close(step(W, b, u), step(W, a, u), 1e-3, "step" + tag)


def run_cca(W, gen="gauss", per="mix2", kern="gauss", klass="CCA", r=1, mode="circular"):
    kw = dict(conv_mode=mode)
    if klass == "CODE":
        kw.update(min_dt=0.3, max_dt=0.45)
    _, gc = fn_vector(W, gen, "g:")
    _, pc = fn_vector(W, per, "p:")
    dt = 0.3 if klass == "CODE" else W.real("dt", 0.01, 1.0)
    u = field(W, 1, r, 0 if klass == "CODE" else 3)
    if klass in ("CODE", "RandomStepCA"):
        gc, pc = fcfg(W, gen), fcfg(W, per)
    a = build(W, klass, r, gc, pc, kcfg(kern, r), dt, **kw)
    before = step(W, a, u)
    if klass in ("CODE", "RandomStepCA"):
        a.set_dt(dt)
    c = a.make_config()
    W.check_close(step(W, a, u), before, 1e-6, "saving-changes-nothing")
    if klass in ("CODE", "RandomStepCA"):
        a.set_dt(dt)
    b = other(W, klass)
    b.load_config(c)
    same(W, a, b, u, 1, r)
    d = cls(W, CLASSES[klass])(kernel_radius=2)
    if klass in ("CODE", "RandomStepCA"):
        b.set_dt(dt)
    d.load_config(b.make_config())
    W.check_close(step(W, d, u), before, 1e-3, "second-generation")
    if klass == "CCA":
        _, kc = kern_vector(W, kern, r)
        a.set_kernel_config(kc)
        b = other(W, klass)
        b.load_config(a.make_config())
        W.check_close(impulse(W, b, 1, r), W.L(impulse(W, a, 1, r)), 1e-4, "any-kernel")
        W.check_close(b.get_params(), W.L(a.get_params()), 1e-5, "any-kernel-parameters")


def fresh(W, klass, r=1, **kw):
    if klass == "NCA":
        ca = cls(W, CLASSES[klass])(kernel_radius=r, hidden_channels=2, kernel_peaks=1, **kw)
        ca.eval()
    else:
        ca = cls(W, CLASSES[klass])(kernel_radius=r, kernel_peaks=1, **kw)
    return ca


def reload(W, ca, klass, **kw):
    b = other(W, klass, **kw)
    b.load_config(ca.make_config())
    b.eval()
    return b


def run_default(W, klass):
    a = fresh(W, klass)
    a.set_dt(W.real("dt", 0.01, 1.0))
    u = field(W, 1, 1)
    before = step(W, a, u)
    b = reload(W, a, klass)
    W.check_close(step(W, a, u), before, 1e-6, "saving-changes-nothing")
    same(W, a, b, u, 1, 1)


def run_after(W, how, klass):
    u = field(W, 1, 2)
    if klass == "CCA":
        a = build(W, "CCA", 2, fcfg(W, "mix3"), fcfg(W, "poly"), kcfg("gauss", 2))
    else:
        a = fresh(W, "NCA", 2)
    p = W.L(a.get_params())
    n = len(p) - (2 if klass == "CCA" else 3)
    r = 2
    if how == "params":
        v = [W.real(f"v{i}", *(SG if klass == "CCA" and i in (1, 3) else (-0.5, 1.0))) for i in range(n)]
        a.set_params(W.nparray(v + p[n:]))
        want = v + p[n:]
    elif how == "setters":
        a.set_dt(W.real("dt", 0.01, 1.0))
        want = p
    elif how == "radius":
        a.set_kernel_radius(1)
        r, want = 1, p
    else:
        a.set_kernel_config(kcfg("smooth", 1))
        r, want = 1, p[:n] + [1.0, 1.0 / 3.0]
    before = step(W, a, u)
    b = reload(W, a, klass)
    W.check_close(b.get_params(), want, 1e-5, "as-set")
    W.check_close(step(W, a, u), before, 1e-6, "saving-changes-nothing")
    same(W, a, b, u, 1, r)


def run_rxn(W, r):
    a = cls(W, CLASSES["RxnDfn"])()
    a.set_kernel_radius(r)
    a.set_params(W.nparray([W.real("du", 1e-6, 4e-5), W.real("dv", 1e-6, 4e-5), W.real("f", 0.01, 0.1), W.real("k", 0.01, 0.1)]))
    a.set_dt(W.real("dt", 0.01, 1.0))
    dx = 0.004 if r == 2 else W.real("dx", 0.002, 0.01)
    a.set_dx(dx)
    a.set_diffusion_u(W.real("du2", 1e-6, 4e-5))
    u = field(W, 2, r, 4)
    b = cls(W, CLASSES["RxnDfn"])()
    b.load_config(a.make_config())
    W.check_close([b.get_dx(), b.get_diffusion_u(), b.get_diffusion_v()], [a.get_dx(), a.get_diffusion_u(), a.get_diffusion_v()],
                  1e-8, "constants")
    same(W, a, b, u, 2, r)


IDK = {"smooth": {"name": "SmoothLifeKernel", "radius": 3, "kernel_kwargs": {"r_a": 1.0 / 3.0, "r_i": 0.0}},
       "inner": {"name": "InnerMoore"},
       "gauss5": {"name": "Gaussian", "radius": 2, "kernel_kwargs": {"mu": 0.0, "sigma": 0.3}}}


def run_identity(W, idk, klass="CCA"):
    u = field(W, 1, 3)
    cfg = {"neighborhood_kernel_config": kcfg("gauss", 3), "identity_kernel_config": dict(IDK[idk]), "dt": W.real("dt", 0.01, 1.0)}
    a = cls(W, CLASSES[klass])(kernel_radius=3, **({"hidden_channels": 2} if klass == "NCA" else {}))
    if klass == "NCA":
        n = len(W.L(a.get_params())) - 9
        cfg["params"] = W.nparray([0.1 + 0.05 * (i % 7) for i in range(n)] + [0.5, 0.15])
    else:
        cfg.update(genesis_config=fcfg(W, "smooth"), persistence_config=fcfg(W, "gauss"))
    a.load_config(cfg)
    a.eval()
    b = reload(W, a, klass)
    n = 9
    e = [[[[1.0 if i == j == 4 else 0.0 for j in range(n)] for i in range(n)]]]
    W.check_close(b.id_conv(W.tensor(e)), W.L(a.id_conv(W.tensor(e))), 1e-4, "identity-kernel")
    same(W, a, b, u, 1, 3)


def run_nca(W, act, ext=1, inn=None):
    inn = inn or ext
    a = cls(W, CLASSES["NCA"])(kernel_radius=1, hidden_channels=2, external_channels=ext, internal_channels=inn, activation=act,
                              kernel_peaks=1, dropout_rate=0.25, alive_threshold=W.real("thr", 0.05, 0.3))
    a.eval()
    p = W.L(a.get_params())
    a.set_params(W.nparray([W.real(f"w{i}", -1.0, 1.0) for i in range(2)] + p[2:]))
    a.set_dt(W.real("dt", 0.01, 1.0))
    u = W.field("u", (1, ext, 3, 4), 0.4, 1.0, spots((1, ext, 3, 4), 3))
    b = reload(W, a, "NCA", hidden_channels=3, activation="SiLU")
    same(W, a, b, u, ext, 1)
    W.check_close([b.dropout_rate], [0.25], 1e-9, "dropout")


def run_file(W):
    """through a file, by restoring and by constructing with it"""
    d = W.scratch("c11")
    a = build(W, "CCA", 2, fn_vector(W, "mix3", "g:")[1], fn_vector(W, "poly", "p:")[1], kcfg("cos", 2), W.real("dt", 0.01, 1.0),
              conv_mode="zeros")
    a.save_config(d + "/one.npy")
    u = field(W, 1, 2)
    b = other(W, "CCA")
    b.restore_config(d + "/one.npy", verbose=False)
    same(W, a, b, u, 1, 2, ":restored")
    b = cls(W, CLASSES["CCA"])(ca_config=d + "/one.npy")
    same(W, a, b, u, 1, 2, ":constructed")
    n = cls(W, CLASSES["NCA"])(kernel_radius=2, hidden_channels=2, kernel_peaks=1)
    n.set_dt(W.real("dt2", 0.01, 1.0))
    n.save_config(d + "/two.npy")
    n.eval()
    b = cls(W, CLASSES["NCA"])(ca_config=d + "/two.npy")
    b.eval()
    same(W, n, b, u, 1, 2, ":neural")
    b.save_config(d + "/three.npy", config=b.make_config())
    c = other(W, "NCA")
    c.restore_config(d + "/three.npy", verbose=False)
    c.eval()
    same(W, n, c, u, 1, 2, ":third")
    x = cls(W, CLASSES["RxnDfn"])()
    x.set_dt(W.real("dt3", 0.01, 1.0))
    x.save_config(d + "/rxn.npy")
    y = cls(W, CLASSES["RxnDfn"])()
    y.restore_config(d + "/rxn.npy")
    same(W, x, y, field(W, 2, 1, 4, "v"), 2, 1, ":rxn")


def run_over(W):
    """restored from a file, changed, saved over it, restored again"""
    d = W.scratch("c11b")
    u = field(W, 1, 1)
    for klass in ("CCA", "NCA"):
        path = f"{d}/{klass}.npy"
        if klass == "CCA":
            build(W, "CCA", 1, fcfg(W, "gauss"), fcfg(W, "mix2"), kcfg("gauss", 1)).save_config(path)
        else:
            fresh(W, "NCA").save_config(path)
        a = cls(W, CLASSES[klass])(ca_config=path, hidden_channels=2)
        a.eval()
        a.set_dt(W.real("dt" + klass, 0.01, 1.0))
        a.set_kernel_config(kcfg("smooth", 1))
        a.save_config(path)
        b = cls(W, CLASSES[klass])(ca_config=path)
        b.eval()
        same(W, a, b, u, 1, 1, ":" + klass)
        c = other(W, klass)
        c.restore_config(path, verbose=False)
        c.eval()
        same(W, a, c, u, 1, 1, ":again:" + klass)


def run_snapshot(W):
    """later changes to the automaton reach neither the configuration nor what was restored from it"""
    u = field(W, 1, 1)
    for klass in ("CCA", "NCA"):
        if klass == "CCA":
            a = build(W, "CCA", 1, fcfg(W, "gauss"), fcfg(W, "poly"), kcfg("gauss", 1), W.real("dt" + klass, 0.01, 1.0))
        else:
            a = fresh(W, "NCA")
        before, p = step(W, a, u), W.L(a.get_params())
        c = a.make_config()
        early = other(W, klass)
        early.load_config(c)
        a.set_params(W.nparray([0.3 + 0.01 * i for i in range(len(p))]))
        a.set_dt(0.77)
        a.set_kernel_radius(3)
        late = other(W, klass)
        late.load_config(c)
        for tag, b in (("early", early), ("late", late)):
            b.eval()
            W.check_close(b.get_params(), p, 1e-5, f"parameters:{tag}:{klass}")
            W.check_eq(b.get_kernel_radius(), 1, f"radius:{tag}:{klass}")
            W.check_close(step(W, b, u), before, 1e-3, f"step:{tag}:{klass}")
        # each kind of later change by itself
        for tag, change in (("dt", lambda x: x.set_dt(0.66)), ("radius", lambda x: x.set_kernel_radius(2)),
                            ("kernel", lambda x: x.set_kernel_config(kcfg("moore", 2))),
                            ("params", lambda x: x.set_params(W.nparray([0.4 - 0.01 * i for i in range(len(p))])))):
            a = other(W, klass)
            a.load_config(c)
            a.eval()
            d = a.make_config()
            change(a)
            b = other(W, klass)
            b.load_config(d)
            b.eval()
            W.check_close(b.get_params(), p, 1e-5, f"parameters-after:{tag}:{klass}")
            W.check_eq(b.get_kernel_radius(), 1, f"radius-after:{tag}:{klass}")
            W.check_close(step(W, b, u), before, 1e-3, f"step-after:{tag}:{klass}")
        # nor does changing one restored automaton change the other
        late.set_params(W.nparray([0.5 - 0.01 * i for i in range(len(p))]))
        late.set_kernel_radius(2)
        W.check_close(early.get_params(), p, 1e-5, f"parameters:others:{klass}")
        W.check_close(step(W, early, u), before, 1e-3, f"step:others:{klass}")


def run_shared(W):
    """two automata loaded from one configuration are independent, and the configuration stays as it was"""
    u = field(W, 1, 2)
    cfg = {"neighborhood_kernel_config": kcfg("mix6", 2), "genesis_config": fcfg(W, "double"), "persistence_config": fcfg(W, "poly"),
           "dt": W.real("dt", 0.01, 1.0)}
    a, b = other(W, "CCA"), other(W, "CCA")
    a.load_config(cfg)
    b.load_config(cfg)
    before, p = step(W, a, u), W.L(a.get_params())
    b.set_params(W.nparray([0.2 + 0.02 * i for i in range(len(p))]))
    b.set_dt(0.9)
    b.set_kernel_radius(1)
    b.set_kernel_config(kcfg("moore", 1))
    b.make_config()
    W.check_close(a.get_params(), p, 1e-5, "parameters")
    W.check_close(step(W, a, u), before, 1e-6, "step")
    c = other(W, "CCA")
    c.load_config(cfg)
    W.check_close(step(W, c, u), before, 1e-5, "configuration-unchanged")
    a.set_kernel_radius(1)
    a.set_kernel_radius(2)
    W.check_close(step(W, a, u), before, 1e-5, "radius-there-and-back")


def run_settings(W):
    """boundary rule, alive threshold and channel counts come back too"""
    thr = W.real("thr", 0.05, 0.5)
    a = cls(W, CLASSES["NCA"])(kernel_radius=1, hidden_channels=2, external_channels=4, internal_channels=4, alive_threshold=thr,
                              conv_mode="zeros", kernel_peaks=1)
    a.eval()
    b = reload(W, a, "NCA")
    W.check_eq([b.external_channels, b.internal_channels, b.hidden_channels], [4, 4, 2], "channels")
    u = W.field("u", (1, 4, 3, 3), 0.0, 1.0, [0, 27, 30])
    W.check_close(step(W, b, u), step(W, a, u), 1e-3, "step")
    a = cls(W, CLASSES["CODE"])(kernel_radius=1, min_dt=W.real("mn", 0.01, 0.2), max_dt=W.real("mx", 0.3, 1.0),
                                error_threshold=W.real("e", 1e-4, 1e-2), prev_dt=W.real("pd", 0.1, 1.0))
    a.load_config({"neighborhood_kernel_config": kcfg("gauss", 1), "genesis_config": fcfg(W, "gauss"),
                   "persistence_config": fcfg(W, "gauss"), "dt": 0.1})
    b = reload(W, a, "CODE")
    W.check_close([b.min_dt, b.max_dt, b.error_threshold, b.prev_dt], [a.min_dt, a.max_dt, a.error_threshold, a.prev_dt], 1e-7,
                  "adaptive")


def run_wide(W, f):
    """whatever the parameters (tiny and negative widths included), they come back as they were"""
    a = build(W, "CCA", 1, fcfg(W, f), fcfg(W, f), kcfg("gauss", 1))
    p = W.L(a.get_params())
    n = len(p) - 2
    for rng in ((-5.0, 5.0), (0.0, 0.01)):
        v = [W.real(f"v{i}{rng[0]}", *rng) for i in range(n)]
        a.set_params(W.nparray(v + p[n:]))
        b = reload(W, a, "CCA")
        W.check_close(b.get_params(), v + p[n:], 1e-6 if rng[0] == 0 else 1e-5, f"parameters:{rng[1]}")


def run_multi(W):
    """several channels, each with its own functions"""
    a = make_multi(W, 1, 2, 1, 0.4)
    u = field(W, 1, 1)
    want = step(W, a, u)
    b = other(W, "CCA")
    try:
        b.load_config(a.make_config())
        got = step(W, b, u)
    except AssertionError:
        got = None
    W.check(got is not None, "restored-steps")
    if got is not None:
        W.check_close(got, want, 1e-3, "step")
