"""C10: the parameter vector round-trips, and setting it makes the automaton the one configured with those values."""
from . import spec
from .common import CLASSES, FNS, KERN, cls, fcfg, kcfg, make_multi, spots

BOUNDS = ("every growth-function family x every kernel family (single kernel), radius 1-3, every entry of the parameter vector "
          "arbitrary (centres in [-0.5,1.5], widths in [0.02,0.6], others in [-1,1]); one step on a 3x4 grid with up to 3 "
          "symbolic cells after each change")
OUTSIDE = "several distinct hand-made kernels (the vector describes one kernel)"
ASSUMPTIONS = []

FN = ("gauss", "dog", "double", "mix2", "mix3", "poly", "smooth", "tanh", "ident", "relu", "gauss0", "poly1")
CONT = ("CCA", "MetaCA", "RandomStepCA", "CODE")


def cases(tier):
    out = []
    for k in KERN:
        out.append((f"kern-{k}", dict(kind="cca", kern=k)))
        out.append((f"kern-{k}-r2", dict(kind="cca", kern=k, r=2)))
    for f in FN:
        out.append((f"fn-{f}", dict(kind="cca", gen=f, per="gauss")))
        out.append((f"fn2-{f}", dict(kind="cca", gen="mix2", per=f)))
    for k in CONT[1:]:
        out.append((f"{k}", dict(kind="cca", klass=k)))
    for k in ("gauss", "smooth"):
        out.append((f"lenia-{k}", dict(kind="lenia", kern=k)))
    out.append(("default-CCA", dict(kind="default")))
    out.append(("default-multi", dict(kind="multi")))
    for k in ("default", "gauss", "mix", "moore", "cos"):
        out.append((f"nca-{k}", dict(kind="nca", kern=k)))
    out.append(("nca-4", dict(kind="nca", kern="default", ext=4)))
    out.append(("rxn", dict(kind="rxn")))
    out.append(("twice", dict(kind="twice")))
    out.append(("keeps", dict(kind="keeps")))
    out.append(("wide", dict(kind="wide")))
    for k in ("gauss", "cos", "smooth"):
        out.append((f"listed-{k}", dict(kind="listed", kern=k)))
    if tier == "thorough":
        for f in FN:
            for k in KERN:
                out.append((f"all-{f}-{k}", dict(kind="cca", gen=f, per=f, kern=k, r=3)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


MU, SG, ANY = (-0.5, 1.5), (0.02, 0.6), (-1.0, 1.0)


def fn_vector(W, name, tag):
    """(arbitrary parameter values of a growth function in vector order, its configuration with these values)"""
    c = dict(FNS[name])
    n = c["name"]
    if n in ("Gaussian", "DoGaussian"):
        v = [W.real(tag + "mu", *MU), W.real(tag + "sg", *SG)]
        return v, dict(c, mu=v[0], sigma=v[1])
    if n == "DoubleGaussian":
        v = [W.real(tag + "mu0", *MU), W.real(tag + "mu1", *MU), W.real(tag + "sg0", *SG), W.real(tag + "sg1", *SG)]
        return v, dict(c, mu=W.tensor(v[:2]), sigma=W.tensor(v[2:]))
    if n == "GaussianMixture":
        ps = c["parameters"]
        k = 3 if len(ps) % 3 == 0 else 2
        v, full = [], []
        for i in range(0, len(ps), k):
            m, s = W.real(f"{tag}mu{i}", *MU), W.real(f"{tag}sg{i}", *SG)
            v += [m, s]
            full += [ps[i], m, s] if k == 3 else [m, s]
        return v, dict(c, parameters=full)
    if n == "Polynomial":
        v = [W.real(f"{tag}c{i}", *ANY) for i in range(len(c["coefficients"]))]
        return v, dict(c, coefficients=W.tensor(v))
    return [], fcfg(W, name)


def kern_vector(W, name, r):
    c = kcfg(name, r)
    kw, v = {}, []
    for key, x in c["kernel_kwargs"].items():
        xs = []
        for i, y in enumerate(x if isinstance(x, list) else [x]):
            lo, hi = {"mu": MU, "sigma": (0.05, 0.6), "omega": (1.0, 20.0), "r_a": (0.8, 1.5), "r_i": (0.1, 0.7),
                      "parameters": ((0.1, 1.0), MU, (0.05, 0.6))[i % 3] if key == "parameters" else MU}[key]
            xs.append(W.real(f"k:{key}{i}", lo, hi))
        kw[key] = xs if isinstance(x, list) else xs[0]
        v += xs
    return v, dict(c, kernel_kwargs=kw)


def build(W, klass, r, g, p, k, dt=0.3, **kw):
    ca = cls(W, CLASSES[klass])(kernel_radius=r, **kw)
    ca.load_config({"neighborhood_kernel_config": dict(k, kernel_kwargs=dict(k["kernel_kwargs"])), "genesis_config": dict(g),
                    "persistence_config": dict(p), "dt": dt})
    return ca


def step(W, ca, u):
    ca.reset()
    W.seed("np", 3)
    if hasattr(ca, "prev_dt"):
        ca.prev_dt = 0.3
    return ca(W.tensor(u))


def field(W, ext, r, n=3, name="u"):
    sh = (1, ext, max(3, 2 * r + 1), max(4, 2 * r + 1))
    return W.field(name, sh, 0.15, 1.0, spots(sh, n))


def impulse(W, ca, ext, r):
    """what the neighborhood correlation does to a single living cell (which is the kernel)"""
    n = 2 * r + 3
    u = [[[[1.0 if (i == r + 1 and j == r + 1) else 0.0 for j in range(n)] for i in range(n)] for _ in range(ext)]]
    return ca.neighborhood_conv(W.tensor(u))


def run_cca(W, gen="gauss", per="mix2", kern="gauss", r=1, klass="CCA"):
    kw = dict(min_dt=0.3) if klass == "CODE" else {}
    ca = build(W, klass, r, fcfg(W, gen), fcfg(W, per), kcfg(kern, r), **kw)
    p0 = W.L(ca.get_params())
    u = field(W, 1, r, 0 if klass == "CODE" else 3)
    before, kb = W.L(step(W, ca, u)), W.L(impulse(W, ca, 1, r))
    ca.set_params(W.nparray(p0))
    W.check_close(ca.get_params(), p0, 1e-6, "read-back-same")
    W.check_close(impulse(W, ca, 1, r), kb, 1e-4, "own-parameters-keep-kernel")
    W.check_close(step(W, ca, u), before, 1e-3, "own-parameters-keep-step")
    gv, gc = fn_vector(W, gen, "g:")
    pv, pc = fn_vector(W, per, "p:")
    kv, kc = kern_vector(W, kern, r)
    v = gv + pv + kv
    W.check_eq(len(p0), len(v), "length")
    ca.set_params(W.nparray(v))
    W.check_close(ca.get_params(), v, 1e-5, "read-back-set")
    other = build(W, klass, r, gc, pc, kc, **kw)
    W.check_close(impulse(W, ca, 1, r), W.L(impulse(W, other, 1, r)), 1e-4, "kernel-is-configured")
    if klass != "CODE":
        # growth functions and kernel one after the other: the kernel stays the configured one
        half = build(W, klass, r, fcfg(W, gen), fcfg(W, per), kcfg(kern, r))
        half.set_params(W.nparray(gv + pv + p0[len(gv + pv):]))
        ref = build(W, klass, r, gc, pc, kcfg(kern, r))
        W.check_close(step(W, half, u), W.L(step(W, ref, u)), 1e-3, "step-is-configured")
    full = [[[[0.2 + 0.1 * ((3 * i + j) % 7) for j in range(4)] for i in range(2 * r + 1)]]]
    W.check_close(ca.neighborhood_conv(W.tensor(full)), W.L(other.neighborhood_conv(W.tensor(full))), 1e-3, "kernel-in-use")


def run_lenia(W, kern):
    ca = build(W, "Lenia", 1, fcfg(W, "mix2"), fcfg(W, "gauss"), kcfg(kern, 1))
    u = field(W, 1, 1)
    p0 = W.L(ca.get_params())
    before = W.L(step(W, ca, u))
    ca.set_params(W.nparray(p0))
    W.check_close(step(W, ca, u), before, 1e-3, "own-parameters-keep-step")
    v, gc = fn_vector(W, "mix2", "g:")
    W.check_eq(len(p0), len(v), "length")
    ca.set_params(W.nparray(v))
    W.check_close(ca.get_params(), v, 1e-5, "read-back-set")
    W.check_close(step(W, ca, u), W.L(step(W, build(W, "Lenia", 1, gc, fcfg(W, "gauss"), kcfg(kern, 1)), u)), 1e-3,
                  "step-is-configured")


def run_default(W):
    """an automaton that was never configured: its kernel is a mixture of rings"""
    for peaks in (1, 2):
        ca = cls(W, CLASSES["CCA"])(kernel_radius=2, kernel_peaks=peaks)
        p0 = W.L(ca.get_params())
        W.check_eq(len(p0), 4 + 3 * peaks, f"length:{peaks}")
        u = field(W, 1, 2)
        before = W.L(step(W, ca, u))
        ca.set_params(W.nparray(p0))
        W.check_close(ca.get_params(), p0, 1e-6, f"read-back-same:{peaks}")
        W.check_close(step(W, ca, u), before, 1e-3, f"own-parameters-keep-step:{peaks}")
        v = []
        for i in range(peaks):
            v += [W.real(f"a{peaks}{i}", 0.1, 1.0), W.real(f"m{peaks}{i}", *MU), W.real(f"s{peaks}{i}", 0.05, 0.6)]
        ca.set_params(W.nparray(p0[:4] + v))
        W.check_close(ca.get_params(), p0[:4] + v, 1e-5, f"read-back-set:{peaks}")
        W.check_close(impulse(W, ca, 1, 2), image(W, spec.kernel_sym(W, {"name": "GaussianMixture", "radius": 2,
                      "kernel_kwargs": {"parameters": v}}), 2, 1), 1e-4, f"kernel:{peaks}")


def image(W, k, r, n):
    """an impulse seen through a kernel (correlation: point-mirrored)"""
    m = 2 * r + 3
    out = [[0.0] * m for _ in range(m)]
    for a in range(2 * r + 1):
        for b in range(2 * r + 1):
            out[r + 1 + r - a][r + 1 + r - b] = k[a][b]
    return [[out] * n]


def run_multi(W):
    ca = cls(W, CLASSES["CCA"])(kernel_radius=1, kernel_peaks=1, internal_channels=3, external_channels=3)
    p0 = W.L(ca.get_params())
    W.check_eq(len(p0), 15, "length")
    u = field(W, 3, 1)
    before = W.L(step(W, ca, u))
    ca.set_params(W.nparray(p0))
    W.check_close(step(W, ca, u), before, 1e-3, "own-parameters-keep-step")
    v = [W.real(f"v{i}", *(MU if i % 2 == 0 else SG)) for i in range(12)]
    ca.set_params(W.nparray(v + p0[12:]))
    W.check_close(ca.get_params(), v + p0[12:], 1e-5, "read-back-set")
    fams = [{"name": type(f).__name__, "mode": 1} for f in list(ca.genesis_fns) + list(ca.persistence_fns)]
    cf = [dict(f, mu=v[2 * i], sigma=v[2 * i + 1]) for i, f in enumerate(fams)]
    k = spec.kernel({"name": "GaussianMixture", "radius": 1, "kernel_kwargs": {"parameters": p0[12:]}})
    m = spec.Model(3, 3, [[k]], cf[:3], cf[3:], 0.1)
    W.check_close(step(W, ca, u), m.step(W, u), 1e-3, "step-is-configured")


def run_nca(W, kern, ext=1):
    hid = 2
    ca = cls(W, CLASSES["NCA"])(kernel_radius=1, hidden_channels=hid, external_channels=ext, internal_channels=ext, kernel_peaks=1)
    n = 2 * ext * hid + hid * hid + hid * ext + 4
    if kern != "default":
        p = W.L(ca.get_params())[:n]
        kv, _ = kern_vector(W, kern, 1)
        k0 = [x for y in kcfg(kern, 1)["kernel_kwargs"].values() for x in (y if isinstance(y, list) else [y])]
        ca.load_config({"neighborhood_kernel_config": kcfg(kern, 1), "params": W.nparray(p + k0), "dt": 0.1})
    else:
        kern = "mix"
    ca.eval()
    p0 = W.L(ca.get_params())
    kv, kc = kern_vector(W, kern, 1)
    W.check_eq(len(p0), n + len(kv), "length")
    u = field(W, ext, 1)
    before, kb = W.L(step(W, ca, u)), W.L(impulse(W, ca, ext, 1))
    ca.set_params(W.nparray(p0))
    W.check_close(ca.get_params(), p0, 1e-6, "read-back-same")
    W.check_close(impulse(W, ca, ext, 1), kb, 1e-4, "own-parameters-keep-kernel")
    W.check_close(step(W, ca, u), before, 1e-3, "own-parameters-keep-step")
    n1, n2 = 2 * ext * hid, hid * hid
    acts = [W.real("am0", *MU), W.real("as0", *SG)], [W.real("am1", *MU), W.real("as1", *SG)]
    w1, w2, w3 = ([W.real(f"w{k}{i}", -1.0, 1.0) for i in range(m)] for k, m in ((1, n1), (2, n2), (3, hid * ext)))
    v = w1 + acts[0] + w2 + acts[1] + w3
    ca.set_params(W.nparray(v + kv))
    W.check_close(ca.get_params(), v + kv, 1e-5, "read-back-set")
    want = spec.kernel_sym(W, kc) if kern != "moore" else spec.kernel(kc)
    W.check_close(impulse(W, ca, ext, 1), image(W, want, 1, ext), 1e-4, "kernel-is-configured")
    # weights in layer order, each layer row by row
    ca.set_params(W.nparray(v + p0[n:]))
    f0, f1 = (lambda x, a=a: spec.gauss(W, x, *a) for a in acts)
    k = spec.kernel(kcfg(kern, 1)) if kern != "mix" else spec.kernel(dict(kcfg("mix", 1), kernel_kwargs={"parameters": p0[n:]}))
    c = [[[[0.3 + 0.1 * ((i + 2 * j + e) % 5) for j in range(3)] for i in range(3)] for e in range(ext)]]
    nb = spec.conv(c, [[k]] * ext, ext)
    inp = c[0] + nb[0]
    out = []
    for e in range(ext):
        pl = []
        for i in range(3):
            row = []
            for j in range(3):
                x = [ch[i][j] for ch in inp]
                h = [f0(dot(w1[a * 2 * ext:(a + 1) * 2 * ext], x)) for a in range(hid)]
                h = [f1(dot(w2[a * hid:(a + 1) * hid], h)) for a in range(hid)]
                row.append(W.clamp(c[0][e][i][j] + 0.1 * W.tanh(dot(w3[e * hid:(e + 1) * hid], h)), 0.0, 1.0))
            pl.append(row)
        out.append(pl)
    W.check_close(step(W, ca, c), [out], 1e-3, "step-is-configured")


def dot(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def run_rxn(W):
    ca = cls(W, CLASSES["RxnDfn"])()
    p0 = W.L(ca.get_params())
    W.check_close(p0, [2e-5, 1e-5, 0.0620, 0.0609], 1e-7, "defaults")
    v = [W.real("du", 1e-6, 4e-5), W.real("dv", 1e-6, 4e-5), W.real("f", 0.0, 0.1), W.real("k", 0.0, 0.1)]
    ca.set_params(W.nparray(v))
    W.check_close(ca.get_params(), v, 1e-9, "read-back-set")
    W.check_close([ca.get_diffusion_u(), ca.get_diffusion_v()], v[:2], 1e-9, "getters")
    ca.set_params(W.nparray(p0))
    W.check_close(ca.get_params(), p0, 1e-9, "read-back-first")


def run_twice(W):
    """the last vector wins; nothing of an earlier one stays behind"""
    r = 1
    a = build(W, "CCA", r, fcfg(W, "mix3"), fcfg(W, "double"), kcfg("mix6", r))
    gv, gc = fn_vector(W, "mix3", "g:")
    pv, pc = fn_vector(W, "double", "p:")
    kv, kc = kern_vector(W, "mix6", r)
    n = len(gv + pv + kv)
    a.set_params(W.nparray([0.3 + 0.01 * i for i in range(n)]))
    u = field(W, 1, r)
    step(W, a, u)
    a.set_params(W.nparray(gv + pv + kv))
    W.check_close(a.get_params(), gv + pv + kv, 1e-5, "read-back")
    b = build(W, "CCA", r, gc, pc, kc)
    W.check_close(impulse(W, a, 1, r), W.L(impulse(W, b, 1, r)), 1e-4, "kernel")
    k6 = [x for x in KERN["mix6"]["kernel_kwargs"]["parameters"]]
    a.set_params(W.nparray(gv + pv + k6))
    b = build(W, "CCA", r, gc, pc, kcfg("mix6", r))
    W.check_close(step(W, a, u), W.L(step(W, b, u)), 1e-3, "step")


def run_wide(W):
    """any numbers at all are read back as they were set"""
    for gen, per in (("gauss", "dog"), ("double", "mix3"), ("mix2", "poly")):
        ca = build(W, "CCA", 1, fcfg(W, gen), fcfg(W, per), kcfg("gauss", 1))
        p0 = W.L(ca.get_params())
        n = len(p0) - 2
        v = [W.real(f"{gen}{i}", -5.0, 5.0) for i in range(n)]
        ca.set_params(W.nparray(v + p0[n:]))
        W.check_close(ca.get_params(), v + p0[n:], 1e-5, f"read-back:{gen}:{per}")


def run_listed(W, kern):
    """kernel parameters come in the order in which the configuration lists them"""
    k = kcfg(kern, 2)
    k["kernel_kwargs"] = dict(reversed(list(k["kernel_kwargs"].items())))
    for tail in ("vector", "radius"):
        ca = build(W, "CCA", 2, fcfg(W, "gauss"), fcfg(W, "gauss"), k)
        p0, before = W.L(ca.get_params()), W.L(impulse(W, ca, 1, 2))
        ca.set_params(W.nparray(p0))
        W.check_close(ca.get_params(), p0, 1e-6, "read-back-same:" + tail)
        W.check_close(impulse(W, ca, 1, 2), before, 1e-4, "own-parameters-keep-kernel:" + tail)
        v, kc = kern_vector(W, kern, 2)
        kc["kernel_kwargs"] = dict(reversed(list(kc["kernel_kwargs"].items())))
        new = list(reversed(v))
        ca.set_params(W.nparray(p0[:-len(new)] + new))
        r = 2
        if tail == "radius":
            r = 1
            ca.set_kernel_radius(r)
            kc["radius"] = r
        W.check_close(ca.get_params(), p0[:-len(new)] + new, 1e-5, "read-back-set:" + tail)
        other = build(W, "CCA", r, fcfg(W, "gauss"), fcfg(W, "gauss"), kc)
        W.check_close(impulse(W, ca, 1, r), W.L(impulse(W, other, 1, r)), 1e-4, "kernel-is-configured:" + tail)


def run_keeps(W):
    """setting parameters leaves the time step, radius, boundary rule, clock and the caller's vector alone"""
    for klass in ("CCA", "Lenia", "NCA"):
        if klass == "NCA":
            ca = cls(W, CLASSES["NCA"])(kernel_radius=2, hidden_channels=2, conv_mode="zeros")
            ca.eval()
        else:
            ca = build(W, klass, 2, fcfg(W, "gauss"), fcfg(W, "gauss"), kcfg("mix", 2), conv_mode="zeros")
        dt = W.real("dt" + klass, 0.01, 1.0)
        ca.set_dt(dt)
        u = field(W, 1, 2, 2, "u" + klass)
        ca(W.tensor(u))
        t = W.num(ca.t_count)
        p = W.nparray(W.L(ca.get_params()))
        before = W.L(p)
        ca.set_params(p)
        W.check_close(p, before, 1e-9, f"vector-unmodified:{klass}")
        W.check_close([ca.get_dt()], [dt], 1e-6, f"dt:{klass}")
        W.check_eq(ca.get_kernel_radius(), 2, f"radius:{klass}")
        W.check_close([W.num(ca.t_count)], [t], 1e-6, f"clock:{klass}")
        W.check_eq(W.shape(ca.neighborhood_conv(W.tensor(u))), (1, 1, 5, 5), f"size:{klass}")
        if klass == "CCA":
            m = spec.Model(1, 1, [[spec.kernel(kcfg("mix", 2))]], [FNS["gauss"]], [FNS["gauss"]], dt, None, "zeros")
            W.check_close(ca(W.tensor(u)), m.step(W, u), 1e-3, f"boundary:{klass}")
