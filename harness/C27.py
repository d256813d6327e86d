"""C27: a configuration name finds its file - the path itself first, then the configurations shipped with the package."""
import os

from . import C10, spec
from .common import CLASSES, FNS, cls, fcfg, kcfg
from .C10 import build, impulse

ROOT = os.environ.get("VERIF_REPO", "/repo")
BOUNDS = ("every class; names that are paths, bundled names, both, neither, with a trailing newline, in a sub-folder, absolute; the "
          "configurations found have arbitrary time step and growth parameters; every configuration shipped in ca_configs is "
          "restored by name and compared, after reducing its radius to 2, with the rule written in the file for arbitrary cells")
OUTSIDE = "permission errors, damaged files; hand-made files of other formats; the step of shipped neural automata (only their parameters)"
ASSUMPTIONS = []
KLASSES = ("CCA", "Lenia", "MetaCA", "RandomStepCA", "CODE", "NCA", "RxnDfn")


def shipped():
    out = []
    for sub in ("", "evolved/"):
        d = f"{ROOT}/ca_configs/{sub}"
        if os.path.isdir(d):
            out += [sub + f for f in sorted(os.listdir(d)) if f.endswith(".npy")]
    return out


def cases(tier):
    out = []
    for k in KLASSES:
        for how in ("path", "bundled", "both", "newline", "absolute", "subfolder", "missing"):
            out.append((f"{how}-{k}", dict(kind="find", klass=k, how=how)))
        if k != "RxnDfn":
            out.append((f"construct-{k}", dict(kind="construct", klass=k)))
    for f in shipped():
        out.append((f"shipped-{f}", dict(kind="shipped", name=f)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def save(W, klass, path, dt, kern="gauss", mu=0.3):
    """a configuration file of the class with something to recognise it by"""
    if klass == "RxnDfn":
        a = cls(W, CLASSES[klass])()
    elif klass == "NCA":
        a = cls(W, CLASSES[klass])(kernel_radius=1, hidden_channels=2, kernel_peaks=1)
    else:
        a = build(W, klass, 1, dict(fcfg(W, "gauss"), mu=mu), fcfg(W, "poly"), kcfg(kern, 1))
    a.set_dt(dt)
    a.save_config(path)
    return a


def new(W, klass, **kw):
    return cls(W, CLASSES[klass])(**({} if klass == "RxnDfn" else dict(kernel_radius=2)), **kw)


def same(W, a, b, klass, tag=""):
    ext = 2 if klass == "RxnDfn" else 1
    a.eval()
    b.eval()
    u = C10.field(W, ext, 1, 0 if klass in ("CODE",) else 2, "u" + tag)
    if not tag or klass not in ("CODE", "RandomStepCA"):
        W.check_close([a.get_dt()], [b.get_dt()], 1e-6, "dt" + tag)
    W.check_close(a.get_params(), W.L(b.get_params()), 1e-5, "parameters" + tag)
    W.check_close(C10.step(W, a, u), W.L(C10.step(W, b, u)), 1e-3, "step" + tag)


def run_find(W, klass, how):
    d = W.scratch("c27")
    bundled = W.root + "/ca_configs/"
    one, two = W.real("dt1", 0.01, 1.0), W.real("dt2", 0.01, 1.0)
    here = klass == "RxnDfn"
    if how in ("path", "both"):
        name = "c27_probe.npy"
        want = save(W, klass, W.root + "/" + name, one)
        if how == "both":
            save(W, klass, bundled + name, two, "cos", 0.5)
    elif how == "absolute":
        name = d + "/c27_abs.npy"
        want = save(W, klass, name, one)
        save(W, klass, bundled + "c27_abs.npy", two, "cos", 0.5)
    elif how == "subfolder":
        W.makedirs(bundled + "c27_sub", exist_ok=True)
        name = "c27_sub/probe.npy"
        want = save(W, klass, bundled + name, one)
        save(W, klass, bundled + "probe.npy", two, "cos", 0.5)
    elif how == "missing":
        name = "c27_nowhere.npy"
        want = None
    else:
        name = "c27_bundled.npy"
        want = save(W, klass, bundled + name, one)
        if how == "newline":
            name += "\n"
    a = new(W, klass)
    if klass != "RxnDfn":
        save(W, klass, d + "/first.npy", 0.6, "smooth", 0.4)
        a.restore_config(d + "/first.npy", verbose=False)
    if want is None:
        a.set_dt(one)
        ext = 2 if klass == "RxnDfn" else 1
        a.eval()
        u = C10.field(W, ext, 1, 0 if klass == "CODE" else 2)
        before, p = W.L(C10.step(W, a, u)), W.L(a.get_params())
        if klass in ("CODE", "RandomStepCA"):
            a.set_dt(one)
        a.restore_config(name)
        W.check_close([a.get_dt()], [one], 1e-6, "dt-kept")
        W.check_close(a.get_params(), p, 1e-6, "parameters-kept")
        W.check_close(C10.step(W, a, u), before, 1e-5, "step-kept")
        return
    a.restore_config(name, verbose=False)
    same(W, a, want, klass)
    a.restore_config(name, verbose=True)
    same(W, a, want, klass, ":again")


def run_construct(W, klass):
    """the same lookup when constructing"""
    bundled = W.root + "/ca_configs/"
    want = save(W, klass, bundled + "c27_c.npy", W.real("dt", 0.01, 1.0))
    same(W, new(W, klass, ca_config="c27_c.npy"), want, klass)
    here = save(W, klass, W.root + "/c27_c.npy", W.real("dt2", 0.01, 1.0), "cos", 0.5)
    same(W, new(W, klass, ca_config="c27_c.npy"), here, klass, ":path-first")
    same(W, new(W, klass, ca_config="ca_configs/c27_c.npy"), want, klass, ":folder")


def number(W, x):
    x = W.L(x)
    return x


def plain(W, c):
    """a growth function or kernel configuration as plain numbers"""
    out = {k: W.L(v) if hasattr(v, "shape") else v for k, v in c.items() if k != "kernel_kwargs"}
    if "kernel_kwargs" in c:
        out["kernel_kwargs"] = plain(W, c["kernel_kwargs"])
    return out


def run_shipped(W, name):
    c = W.np_load(W.root + "/ca_configs/" + name, allow_pickle=True).reshape(1)[0]
    dt = c.get("dt", 0.1)
    k = dict(plain(W, c["neighborhood_kernel_config"]))
    k.setdefault("kernel_kwargs", {})
    r = k["radius"]
    if "feed_rate" in c:
        from .C12 import law
        a = cls(W, CLASSES["RxnDfn"])()
        a.restore_config(name)
        q = dict(du=c["diffusion_u"], dv=c["diffusion_v"], f=c["feed_rate"], k=c["decay_rate"], dx=c["dx"], dt=dt)
        W.check_close(a.get_params(), [q["du"], q["dv"], q["f"], q["k"]], 1e-7, "rates")
        u = C10.field(W, 2, r, 4)
        W.check_close(a(W.tensor(u)), law(W, u, q, r, k["kernel_kwargs"].get("sigma", 0.5)), 1e-3, "step")
        return
    if "params" in c:
        if "instant_kwargs" not in c:
            n = len(W.L(c["params"]))
            kp = len([x for y in k["kernel_kwargs"].values() for x in (y if isinstance(y, list) else [y])])
            # older files do not name the hidden layer's size and activation
            hid, act = next((h, a) for h in range(1, 1024) for a, x in (("Gaussian", 4), ("Tanh", 0))
                            if 3 * h + h * h + x == n - kp)
            a = cls(W, CLASSES["NCA"])(hidden_channels=hid, activation=act)
            a.restore_config(name, verbose=False)
        else:
            a = cls(W, CLASSES["NCA"])(ca_config=name)
        W.check_close(a.get_params(), W.L(c["params"]), 1e-5, "parameters")
        ker = spec.kernel(dict(k)) if r <= 13 else None
    else:
        a = cls(W, CLASSES["CCA"])(ca_config=name)
        ker = spec.kernel(dict(k))
    W.check_close([a.get_dt()], [dt], 1e-6, "dt")
    W.check_eq(a.get_kernel_radius(), r, "radius")
    if ker:
        W.check_close(impulse(W, a, 1, r), C10.image(W, ker, r, 1), 1e-4, "kernel")
    if "params" in c:
        return
    small = 2 if r > 2 else r
    a.set_kernel_radius(small)
    g, p = plain(W, c["genesis_config"]), plain(W, c["persistence_config"])
    idk = c.get("identity_kernel_config")
    m = spec.Model(1, 1, [[spec.kernel(dict(k, radius=small))]], [g], [p], dt, [[spec.kernel(plain(W, idk))]] if idk else None)
    n = 2 * small + 1 if not idk else max(2 * small + 1, idk["radius"])
    sh = (1, 1, n, n + 1)
    u = W.field("u", sh, 0.15, 1.0, C10.spots(sh, 3 if not idk else 1))
    if g["name"] == "SmoothIntervals":
        # the sharp sigmoids are compared at concrete states
        u = [[[[((7 * i + 3 * j) % 5) / 4.0 for j in range(n + 1)] for i in range(n)]]]
    W.check_close(C10.step(W, a, u), m.step(W, u), 1e-3, "step")
    d = W.scratch("c27s")
    a.save_config(d + "/copy.npy")
    b = cls(W, CLASSES["CCA"])(ca_config=d + "/copy.npy")
    W.check_close(C10.step(W, b, u), W.L(C10.step(W, a, u)), 1e-3, "saved-again")
