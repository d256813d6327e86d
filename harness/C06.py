"""C06: a cell's next value depends only on cells within the kernel radius, under every boundary rule."""
from . import spec
from .common import CLASSES, ZOO, cls, off_threshold, zoo

BOUNDS = ("one step (two in the *-2 cases); grids 5x6..11x9; all cells outside the neighbourhood of the observed cell are "
          "symbolic twice (two independent arbitrary states), up to 8 cells inside are symbolic once; boundary rules "
          "circular, zeros, reflect, replicate; observed cells: centre, corner, edge")
OUTSIDE = "the adaptive variant, whose common step size depends on the whole state"
ASSUMPTIONS = ["states in [0,1]", "alpha values at least 1e-4 away from the alive threshold"]


def cases(tier):
    out = []
    for z in ZOO:
        if z.startswith("code"):
            continue
        out.append((f"{z}", dict(z=z)))
        if z not in ("rxn",):
            for mode in (("zeros", "reflect", "replicate") if z in ("cca", "cca-r2", "lenia", "nca", "cca-2-4") else ("zeros",)):
                out.append((f"{z}-{mode}", dict(z=z, mode=mode)))
    out.append(("cca-2", dict(z="cca", steps=2, size=(7, 8))))
    out.append(("nca-2", dict(z="nca", steps=2, size=(7, 8))))
    out.append(("rxn-2", dict(z="rxn", steps=2, size=(7, 8))))
    for z in ("cca", "lenia", "nca", "rxn", "cca-2-4", "cca-4-4", "meta"):
        # the neighborhood is empty; is the rest empty too?
        out.append((f"{z}-empty", dict(z=z, empty=True, size=(7, 8))))
    for z in ("cca", "lenia", "nca", "nca2", "meta"):
        # the neighborhood is level; does it matter whether the rest is?
        out.append((f"{z}-level", dict(z=z, level=0.5, size=(7, 8))))
    if tier == "thorough":
        out.append(("cca-3", dict(z="cca", steps=3, size=(11, 9))))
        out.append(("cca-r2-2", dict(z="cca-r2", steps=2, size=(11, 11))))
        out.append(("lenia-2", dict(z="lenia", steps=2, size=(11, 11))))
    return out


def dist(i, j, n, mode):
    d = abs(i - j)
    return min(d, n - d) if mode == "circular" else d


def run(W, z, mode="circular", steps=1, size=None, empty=False, level=None):
    ca, ext, r = zoo(W, z, mode)
    if empty and z not in ("nca", "rxn"):
        # something grows out of nothing
        n = len(ca.genesis_fns)
        ca.genesis_fns = []
        for k in range(n):
            ca.add_genesis_fn({"name": "Gaussian", "mu": 0.1, "sigma": 0.2, "mode": 0})
    if level and z.startswith("nca"):
        # makes a small influence a visible one: the update is a steep function of neighborhood minus cell
        ca = cls(W, CLASSES["NCA"])(kernel_radius=1, hidden_channels=2, external_channels=ext, internal_channels=ext,
                                    conv_mode=mode, activation="Tanh")
        ca.eval()
        p = W.L(ca.get_params())
        n1 = 4 * ext
        p[:n1 + 4 + 2 * ext] = [3.0 * (-1) ** (k % (2 * ext) < ext) for k in range(n1)] + [1.0] * 4 + [2.0] * (2 * ext)
        ca.set_params(W.nparray(p))
    H, Wd = size or (2 * r + 3, 2 * r + 4)
    R = r * steps
    for pos in ((3, 3), (0, 0)) if empty or level else ((H // 2, Wd // 2), (0, 0), (H - 1, 2), (1, Wd - 1)):
        near = lambda i, j: dist(i, pos[0], H, mode) <= R and dist(j, pos[1], Wd, mode) <= R
        a, b = [], []
        nsym = 0
        for c in range(ext):
            pa, pb = [], []
            for i in range(H):
                ra, rb = [], []
                for j in range(Wd):
                    nm = f"{pos[0]}.{pos[1]}.{c}.{i}.{j}"
                    if empty:
                        ra.append(0.0)
                        rb.append(0.0 if near(i, j) else W.real("b:" + nm, 0.0, 1.0))
                    elif level:
                        ra.append(level)
                        rb.append(level if near(i, j) else W.real("b:" + nm, 0.0, 1.0))
                    elif near(i, j):
                        nsym += 1
                        x = W.real("n:" + nm, 0.0, 1.0) if nsym % 5 == 1 and nsym < 40 and steps == 1 else (
                            0.15 + 0.7 * ((7 * i + 3 * j + 5 * c) % 11) / 11.0)
                        ra.append(x)
                        rb.append(x)
                    else:
                        ra.append(W.real("a:" + nm, 0.0, 1.0))
                        rb.append(W.real("b:" + nm, 0.0, 1.0))
                pa.append(ra)
                pb.append(rb)
            a.append(pa)
            b.append(pb)
        off_threshold(W, [a])
        off_threshold(W, [b])
        res = []
        for u in (a, b):
            ca.reset()
            W.seed("np", 3)
            t = W.tensor([u])
            for _ in range(steps):
                t = ca(t)
            o = W.L(t)[0]
            res.append([o[c][pos[0]][pos[1]] for c in range(ext)])
        W.check_close(res[0], res[1], 1e-4, f"local:{pos[0]},{pos[1]}")
