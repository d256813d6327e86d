"""C26: previews (get_frame) show the state the automaton would step to, without stepping it."""
from . import spec
from .common import CLASSES, cls, make, make_multi, model, model_multi, off_threshold, spots, zoo

BOUNDS = ("one preview (all five modes) next to one step, from arbitrary states in [0,1]; grids 3x4..7x8 with up to 8 symbolic "
          "cells; 1-4 channels")
OUTSIDE = "automata that choose their time step while stepping (adaptive, random)"
ASSUMPTIONS = ["alpha values at least 1e-4 away from the alive threshold"]
Z = ("cca", "cca-r2", "cca-smooth", "cca-poly", "cca-2-4", "cca-3-2", "cca-4-4", "lenia", "nca", "nca2", "nca4", "rxn", "meta")


def cases(tier):
    out = [(z, dict(kind="same", z=z)) for z in Z]
    out += [(z + "-history", dict(kind="hist", z=z)) for z in ("cca", "cca-4-4", "lenia", "nca", "rxn", "meta")]
    out += [("parts", dict(kind="parts")), ("parts-4", dict(kind="parts", ext=4)), ("dt-set", dict(kind="dtset"))]
    if tier == "thorough":
        out += [(f"{z}-{m}", dict(kind="same", z=z, mode=m)) for z in Z[:11] for m in ("zeros", "reflect", "replicate")]
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def state(W, z, ext, r, name="u", k=6):
    sh = (2 if ext < 4 else 1, ext, 2 * r + 1, 2 * r + 2)
    u = W.field(name, sh, 0.0, 1.0, spots(sh, k))
    off_threshold(W, u)
    return u


def clock(W, ca):
    if type(ca).__name__ == "MetaCA":
        return 0.0              # keeps no clock
    x = W.L(ca.t_count)
    while isinstance(x, list):
        x = x[0]
    return x


def run_same(W, z, mode="circular"):
    ca, ext, r = zoo(W, z, mode)
    u = state(W, z, ext, r)
    t = W.tensor(u)
    before = W.L(t)
    new = []
    for m in range(5):
        f = ca.get_frame(t, mode=m)
        W.check_eq(len(f) if m else 1, {0: 1, 1: 2, 2: 2, 3: 3, 4: 4}[m], f"arity:{m}")
        new.append(f if m == 0 else f[0])
    W.check_close(t, before, 1e-9, "input-unmodified")
    W.check_close([clock(W, ca)], [0.0], 1e-9, "clock-unmoved")
    ref = W.L(ca(t))
    for m, f in enumerate(new):
        W.check_close(f, ref, 1e-3, "preview-without-velocity" if z == "meta" else f"preview-is-next:{m}")


def run_hist(W, z):
    """previews in between do not change what the automaton does next"""
    a, ext, r = zoo(W, z)
    W.seed("np", 1)
    u, v = state(W, z, ext, r, "u", 4), state(W, z, ext, r, "v", 4)
    x1, x2 = W.L(a(W.tensor(u))), W.L(a(W.tensor(v)))
    t1 = clock(W, a)
    a.reset()
    a.get_frame(W.tensor(v), mode=0)
    y1 = W.L(a(W.tensor(u)))
    a.get_frame(W.tensor(u), mode=3)
    a.get_frame(W.tensor(u), mode=1)
    y2 = W.L(a(W.tensor(v)))
    W.check_close(y1, x1, 1e-3, "history:1")
    W.check_close(y2, x2, 1e-3, "history:2")
    W.check_close([clock(W, a)], [t1], 1e-6, "history:clock")


def run_parts(W, ext=1):
    """the extra pictures are the neighborhood sums, the update, and the state itself"""
    if ext == 1:
        ca, m = make(W, "CCA", "gauss", "poly", "mix6", 1, 0.3), model("gauss", "poly", "mix6", 1, 0.3)
    else:
        ca, m = make_multi(W, ext, ext, 1, 0.3), model_multi(ext, ext, 1, 0.3)
    sh = (1, ext, 3, 4)
    u = W.field("u", sh, 0.0, 1.0, spots(sh, 6))
    off_threshold(W, u)
    um, _, nb, upd, new = m.parts(W, u)
    t = W.tensor(u)
    get = lambda k: ca.get_frame(t, mode=k)
    W.check_close(get(1)[1], nb, 1e-3, "neighborhoods:1")
    W.check_close(get(2)[1], upd, 1e-3, "update:2")
    W.check_close(get(3)[1], nb, 1e-3, "neighborhoods:3")
    W.check_close(get(3)[2], upd, 1e-3, "update:3")
    f = get(4)
    W.check_close(f[1], u if ext < 4 else um, 1e-3, "state:4")
    W.check_close(f[2], nb, 1e-3, "neighborhoods:4")
    W.check_close(f[3], upd, 1e-3, "update:4")


def run_dtset(W):
    ca = make(W, "CCA", "gauss", "poly", "mix6", 1, 0.3)
    dt = W.real("dt", 0.01, 2.0)
    ca.set_dt(dt)
    u = W.field("u", (1, 1, 3, 4), 0.0, 1.0, spots((1, 1, 3, 4), 4))
    W.check_close(ca.get_frame(W.tensor(u)), model("gauss", "poly", "mix6", 1, dt).step(W, u), 1e-3, "preview-dt")
