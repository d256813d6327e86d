"""C20: training inputs are the image, damaged and noisy exactly as asked."""
import math

BOUNDS = ("images of 1-4 channels on even grids 4x4..8x8 with up to 12 arbitrary cells, batches of 1-4, arbitrary noise, arbitrary "
          "centres of the damage (1 symbolic pair per case), fixed damage and aperture radii including 0 and the 0.975 limit")
OUTSIDE = "grids with odd or unequal sides; cells within 1e-3 of the rim of the damage"
ASSUMPTIONS = []


def cases(tier):
    out = []
    for n, r in ((4, 0.4), (4, 0.9), (6, 0.3), (8, 0.2), (6, 0.0), (4, 1.7)):
        out.append((f"bite-{n}-{r}", dict(kind="bite", n=n, r=r)))
    out.append(("bite-drawn", dict(kind="drawn", n=4, r=0.6)))
    out.append(("aperture", dict(kind="aperture")))
    for c, x, b, n in ((1, None, 2, 4), (5, None, 1, 4), (6, 8, 1, 4), (3, None, 2, 4), (1, 3, 2, 4), (2, 4, 3, 6), (4, None, 1, 4), (1, None, 4, 6)):
        out.append((f"prep-{c}-{x}-{b}-{n}", dict(kind="prep", c=c, x=x, b=b, n=n)))
    out.append(("prep-clean", dict(kind="prep", c=2, x=None, b=2, n=4, noise=0.0, bite=0.0)))
    out.append(("prep-aperture", dict(kind="prep", c=1, x=2, b=2, n=6, ap=0.7)))
    out.append(("prep-symbolic-bite", dict(kind="prep", c=1, x=2, b=2, n=4, sym=True, bite=0.5)))
    out.append(("mask", dict(kind="mask")))
    out.append(("target", dict(kind="target")))
    if tier == "thorough":
        for n in (4, 6, 8):
            for r in (0.1, 0.25, 0.5, 0.75, 1.0, 1.3):
                out.append((f"bites-{n}-{r}", dict(kind="bite", n=n, r=r)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def axis(n):
    R = n // 2
    return [-R + i * (2 * R + 1) / (2 * R) for i in range(n)]


def eaten(W, n, r, cx, cy, off=True):
    """which cells lie within r (in half widths) of the centre"""
    R = n // 2
    t = (r * R) ** 2
    out = []
    for y in axis(n):
        row = []
        for x in axis(n):
            q = (x - cx) * (x - cx) + (y - cy) * (y - cy)
            if off:
                d = W.sqrt(q) / R
                W.assume(W.or_(d <= r - 1e-3, d >= r + 1e-3))
                row.append(d < r)
            else:
                row.append(q < t)
        out.append(row)
    return out


def image(W, c, n, k=12):
    import itertools
    at = list(itertools.product(range(c), range(n), range(n)))
    step = max(1, len(at) // k)
    img = [[[0.3 + 0.01 * ((7 * i + 3 * j + ch) % 9) for j in range(n)] for i in range(n)] for ch in range(c)]
    for m, (ch, i, j) in enumerate(at[::step]):
        img[ch][i][j] = W.real(f"v{m}", 0.0, 1.0)
    return [img]


def run_bite(W, n, r):
    m = W.imp("yuca.utils")
    cx, cy = W.real("cx", -n / 2, n / 2), W.real("cy", -n / 2, n / 2)
    img = image(W, 2, n)
    e = eaten(W, n, r, cx, cy)
    t = W.nparray(img)
    out = W.L(m.get_bite_mask(t, r, coords=[cx, cy]))
    want = [[W.ite(v, 0.0, 1.0) for v in row] for row in e]
    W.check_close(out, [[want, want]], 1e-6, "bite")
    W.check_close(W.L(t), img, 1e-7, "image-unchanged")


def run_drawn(W, n, r):
    """without a centre one is drawn from the lower right quarter, anew each time"""
    m = W.imp("yuca.utils")
    W.seed("np", 7)
    W.rng_mode = "sym"
    k = len(W.drawn)
    img = image(W, 1, n, 2)
    out = W.L(m.get_bite_mask(W.nparray(img), r))
    two = W.L(m.get_bite_mask(W.nparray(img), r))
    d = [v for _, _, xs in W.drawn[k:] for v in xs]
    W.check(len(d) == 4, "centres-drawn")
    if len(d) != 4:
        return
    for i, o in ((0, out), (1, two)):
        e = eaten(W, n, r, d[2 * i] * (n // 2), d[2 * i + 1] * (n // 2))
        W.check_close(o, [[[[W.ite(v, 0.0, 1.0) for v in row] for row in e]]], 1e-6, "bite-at-the-drawn-centre")


def run_aperture(W):
    m = W.imp("yuca.utils")
    for n in (4, 8):
        img = image(W, 2, n, 4)
        for r in (0.3, 0.62, 0.97, 0.975, 1.0, 2.0):
            out = W.L(m.get_aperture(W.nparray(img), r))
            e = eaten(W, n, r, 0.0, 0.0, False) if r < 0.975 else [[True] * n] * n
            w = [[1.0 if v else 0.0 for v in row] for row in e]
            W.check_close(out, [[w, w]], 1e-6, "aperture")


def run_prep(W, c, x, b, n, noise=0.25, bite=0.4, ap=1.0, sym=False):
    m = W.imp("yuca.utils")
    img = image(W, c, n)
    W.seed("np", 3)
    W.rng_mode = lambda lib, kind, shape, nm: "sym" if (len(shape) == 4 or sym) else "const"
    k = len(W.drawn)
    kw = {} if x is None else {"external_channels": x}
    t = W.nparray(img)
    out = W.L(m.prep_input(t, batch_size=b, aperture_radius=ap, bite_radius=bite, noise_level=noise, **kw))
    X = c if x is None else x
    W.check(len(out) == b and all(len(o) == X for o in out), "shape", info=f"{len(out)} {len(out[0])}")
    # item by item, or for the whole batch at once: the noise, and the centres of the damage
    cells = c * n * n
    noises = [v for _, _, xs in W.drawn[k:] if len(xs) % cells == 0 and (len(xs) > 2 * b or cells == 1) for v in xs]
    centres = [v for _, _, xs in W.drawn[k:] if len(xs) % cells or len(xs) <= 2 * b for v in xs]
    W.check(len(noises) == b * cells and len(centres) == 2 * b, "noise-and-damage-drawn-for-each-item")
    if len(noises) != b * cells or len(centres) != 2 * b:
        return
    big = [noises[o * cells:(o + 1) * cells] for o in range(b)]
    two = [centres[2 * o:2 * o + 2] for o in range(b)]
    open_ = eaten(W, n, ap, 0.0, 0.0, False) if ap < 0.975 else [[True] * n] * n
    for o in range(b):
        cx, cy = two[o][0] * (n // 2), two[o][1] * (n // 2)
        e = eaten(W, n, bite, cx, cy, sym)
        want = []
        for ch in range(X):
            want.append([[(W.ite(e[i][j], 0.0, img[0][ch][i][j]) * (1.0 if open_[i][j] else 0.0)
                           + noise * big[o][(ch * n + i) * n + j]) if ch < c else 0.0 for j in range(n)] for i in range(n)])
        W.check_close(out[o], want, 1e-5, "item")
    W.check_close(W.L(t), img, 1e-7, "image-unchanged")


def run_mask(W):
    m = W.imp("yuca.utils")
    r = W.real("r", 0.0, 1.0)
    g = [[W.real(f"g{i}{j}", 0.0, 1.5) for j in range(3)] for i in range(2)]
    out = W.L(m.get_mask(W.nparray(g), r))
    W.check_close(out, [[W.ite(v < r, 0.0, 1.0) for v in row] for row in g], 1e-6, "mask")


def run_target(W):
    m = W.imp("yuca.utils")
    c = W.pick("c", [1, 3])
    img = [[[W.real(f"x{ch}{i}{j}", 0.0, 1.0) for j in range(4)] for i in range(2)] for ch in range(c)]
    W.check_close(W.L(m.make_target(W.nparray(img))), [img], 1e-6, "target")
