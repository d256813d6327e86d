"""C21: entropy and correlation measures equal their definitions."""
import math

BOUNDS = ("grids of 2x2..5x4 cells holding 0 and 1 and 1-3 arbitrary cells, each anywhere within a range of 3-14 "
          "grey levels (low, middle and high ranges); windows 3 and 5, wider than the grid included; batches of 2, 2 channels")
OUTSIDE = ("constant grids; cells within 1e-4 of the boundary between two grey levels or above level 250; the module-level "
           "get_spatial_entropy (clipped windows) and autocorrelate_old (unused, stops in the debugger)")
ASSUMPTIONS = ["the smallest value of a grid is 0 and the largest 1 (others are stretched to that first; one case covers the stretching)"]
EPS = 1e-9


def cases(tier):
    out = [("shift", dict(kind="shift"))]
    for h, w, k, lo, hi in ((2, 2, 2, 0.004, 0.018), (3, 3, 2, 0.499, 0.507), (2, 3, 2, 0.965, 0.98), (3, 2, 1, 0.004, 0.06)):
        for which in ("module", "phanes"):
            out.append((f"entropy-{which}-{h}x{w}", dict(kind="entropy", h=h, w=w, k=k, which=which, lo=lo, hi=hi)))
    out.append(("stretch-module", dict(kind="stretch", which="module")))
    out.append(("stretch-phanes", dict(kind="stretch", which="phanes")))
    for h, w, win in ((3, 3, 3), (4, 3, 3), (2, 3, 5)):
        out.append((f"spatial-{h}x{w}-{win}", dict(kind="spatial", h=h, w=w, win=win)))
    out.append(("spatial-batch", dict(kind="spatial4")))
    for d in range(4):
        out.append((f"conditional-{d}", dict(kind="conditional", d=d)))
    out.append(("conditional-all", dict(kind="multi")))
    for b, d in ((1, 2), (2, 3)):
        out.append((f"correlation-{b}-{d}", dict(kind="corr", b=b, d=d)))
        for free in ("x", "y"):
            out.append((f"correlation-{b}-{d}-one-{free}", dict(kind="corr", b=b, d=d, free=free)))
    if tier == "thorough":
        for h, w in ((3, 4), (4, 4)):
            out.append((f"entropy-{h}x{w}", dict(kind="entropy", h=h, w=w, k=3, which="phanes", lo=0.695, hi=0.705)))
        for d in range(4):
            out.append((f"conditional-big-{d}", dict(kind="conditional", d=d, h=4, w=3)))
        out.append(("spatial-5x4-3", dict(kind="spatial", h=5, w=4, win=3)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def level(W, x):
    """grey level of a value in [0, 1]"""
    return W.floor(x * 255)


def cell(W, name, lo=0.004, hi=0.98):
    x = W.real(name, lo, hi)
    z = x * 255 - W.floor(x * 255)
    W.assume(z >= 0.02)
    W.assume(z <= 0.98)
    return x


def grid(W, h, w, k, lo=0.004, hi=0.98):
    """0 and 1 somewhere, k arbitrary cells, the rest fixed"""
    n = h * w
    g = [0.303, 0.303, 0.5019, 0.7, 0.303, 0.117, 0.7, 0.5019, 0.117][:n] * (n // 9 + 1)
    g = g[:n]
    g[1 % n], g[n - 1] = 0.0, 1.0
    free = [i for i in range(n) if i not in (1 % n, n - 1)]
    for j in range(min(k, len(free))):
        g[free[(j * 2) % len(free)]] = cell(W, f"x{j}", lo, hi)
    return [g[i * w:(i + 1) * w] for i in range(h)]


def entropy(W, cells, bins=range(256)):
    lv = [level(W, c) if not isinstance(c, float) else float(int(c * 255)) for c in cells]
    n = len(cells)
    h = 0.0
    for b in bins:
        p = sum((W.ite(v == b, 1.0, 0.0) if not isinstance(v, float) else float(v == b)) for v in lv) / n
        if isinstance(p, float) and p == 0:
            continue
        h = h - p * W.log2(EPS + p)
    return h


def phanes(W):
    m = W.imp("yuca.analyze")
    return m, m.Phanes(batch_size=1, dim=4, ca_steps=1)


def run_shift(W):
    m = W.imp("yuca.analyze")
    h, w = W.pick("h", [2, 3]), W.pick("w", [2, 4])
    g = [[W.real(f"g{i}{j}", 0.0, 1.0) for j in range(w)] for i in range(h)]
    for dx, dy in ((-1, 0), (0, 1), (1, 0), (0, -1), (1, 1), (0, 0)):
        out = W.L(m.np_shift(W.nparray(g), [dx, dy]))
        W.check_close(out, [[g[(i + dx) % h][(j + dy) % w] for j in range(w)] for i in range(h)], 1e-7, "wraps")


def run_entropy(W, h, w, k, which, lo, hi):
    m, a = phanes(W)
    f = m.get_grid_entropy if which == "module" else a.get_grid_entropy
    g = grid(W, h, w, k, lo, hi)
    x = W.nparray(g)
    out = f(x)
    W.check_close(W.num(out), entropy(W, [c for r in g for c in r]), 1e-5, "entropy")
    W.check_close(W.L(x), g, 1e-7, "grid-unchanged")


def run_stretch(W, which):
    """only relative values matter: the entropy of s*g+o is that of g"""
    m, a = phanes(W)
    f = m.get_grid_entropy if which == "module" else a.get_grid_entropy
    g = grid(W, 2, 2, 1, 0.4985, 0.5055)   # next to the level of another cell
    want = W.num(f(W.nparray(g)))
    for s, o in ((2.0, 0.0), (0.25, 3.0), (7.0, -2.0)):
        W.check_close(W.num(f(W.nparray([[c * s + o for c in r] for r in g]))), want, 1e-5, "scale-and-offset")


def window(g, i, j, r):
    h, w = len(g), len(g[0])
    return [g[(i + di) % h][(j + dj) % w] for di in range(-r, r + 1) for dj in range(-r, r + 1)]


def run_spatial(W, h, w, win):
    """every window wraps around the grid; windows have their own stretching"""
    m, a = phanes(W)
    calls = []
    a.get_grid_entropy = lambda x: (calls.append(W.L(x)), float(len(calls)))[1]
    g = [[W.real(f"g{i}{j}", 0.0, 1.0) for j in range(w)] for i in range(h)]
    out = W.L(a.get_spatial_entropy(W.nparray(g), window_size=win))
    r = (win - 1) // 2
    W.check(len(calls) == h * w, "one-window-per-cell", info=str(len(calls)))
    for i in range(h):
        for j in range(w):
            k = int(out[i][j]) - 1
            W.check(0 <= k < len(calls), "value-of-a-window")
            W.check_close([c for row in calls[k] for c in row], window(g, i, j, r), 1e-7, "window")


def run_spatial4(W):
    """batches and channels are measured separately, tensors and arrays alike"""
    m, a = phanes(W)
    a.get_grid_entropy = lambda x: W.num(x[1, 1]) + 0.5 * W.num(x[0, 1]) + 0.25 * W.num(x[1, 0])
    g = [[[[W.real(f"g{b}{c}{i}{j}", 0.0, 1.0) for j in range(3)] for i in range(2)] for c in range(2)] for b in range(2)]
    want = [[[[v[i][j] + 0.5 * v[i - 1][j] + 0.25 * v[i][j - 1] for j in range(3)] for i in range(2)] for v in s] for s in g]
    W.check_close(W.L(a.get_spatial_entropy(W.tensor(g), window_size=3)), want, 1e-6, "batch-of-tensors")
    W.check_close(W.L(a.get_spatial_entropy(W.nparray(g), window_size=3)), want, 1e-6, "batch-of-arrays")
    one = W.L(a.get_spatial_entropy(W.nparray(g[0][1]), window_size=3))
    W.check_close(one, want[0][1], 1e-6, "single-grid")


def conditional(W, g, d):
    """- sum p(s,u) log2 p(s|u) over grey levels s of a cell and u of its neighbor"""
    dx, dy = ((-1, 0), (0, 1), (1, 0), (0, -1))[d]
    h, w = len(g), len(g[0])
    lv = [[level(W, c) if not isinstance(c, float) else float(int(c * 255)) for c in r] for r in g]
    pairs = [(lv[i][j], lv[(i + dx) % h][(j + dy) % w]) for i in range(h) for j in range(w)]
    n = h * w
    out = 0.0

    def eq(v, b):
        return v == b if not isinstance(v, float) else bool(v == b)

    def count(cs):
        return sum(W.ite(c, 1.0, 0.0) if not isinstance(c, bool) else float(c) for c in cs)
    cand = sorted({b for v in [x for r in lv for x in r] for b in ([v] if isinstance(v, float) else range(124, 134))})
    for u in cand:
        cu = count(eq(b, u) for _, b in pairs)
        if isinstance(cu, float) and cu == 0:
            continue
        cu = W.max(cu, 1.0)
        for s in cand:
            c = count(W.and_(eq(a, s), eq(b, u)) for a, b in pairs)
            if isinstance(c, float) and c == 0:
                continue
            out = out - c / n * W.log2(EPS + c / cu)
    return out


def run_conditional(W, d, h=2, w=3):
    m = W.imp("yuca.analyze")
    g = grid(W, h, w, 2, 0.4990, 0.5070)
    W.check_close(W.num(m.get_conditional_grid_entropy(W.nparray(g), direction=d)), conditional(W, g, d), 1e-4, "conditional-entropy")


def run_multi(W):
    m = W.imp("yuca.analyze")
    v = [W.real(f"h{d}", 0.0, 8.0) for d in range(4)]
    seen = []
    m.get_conditional_grid_entropy = lambda g, direction=0: (seen.append(direction), v[direction])[1]
    out = m.get_multiconditional_grid_entropy(W.nparray([[0.0, 1.0]]))
    W.check(sorted(seen) == [0, 1, 2, 3], "every-direction-once")
    W.check_close(W.num(out), sum(v) / 4, 1e-6, "mean-over-directions")


def run_corr(W, b, d, free=None):
    """mean of the products of the normalized states"""
    m, a = phanes(W)
    x = [[[[W.real(f"x{i}{j}{k}", 0.0, 0.4) if (j + k + i) % 2 else 0.6 for k in range(d)] for j in range(d)]] for i in range(b)]
    y = [[[[W.real(f"y{i}{j}{k}", 0.0, 0.4) if (j * k + i) % 2 == 0 else 0.9 for k in range(d)] for j in range(d)]] for i in range(b)]
    if free:
        one = W.real("one", 0.0, 1.0)
        x = [[[[0.1 + 0.07 * ((3 * k + 2 * j + i) % 5) for k in range(d)] for j in range(d)]] for i in range(b)]
        y = [[[[0.2 + 0.13 * ((2 * k + 3 * j + i) % 6) for k in range(d)] for j in range(d)]] for i in range(b)]
        (x if free == "x" else y)[0][0][d - 1][0] = one
    out = W.L(a.autocorrelate(W.tensor(x), W.tensor(y)))
    n = b * d * d
    fx = [v for i in x for c in i for r in c for v in r]
    fy = [v for i in y for c in i for r in c for v in r]

    def norm(f):
        mu = sum(f) / n
        sd = W.sqrt(sum((v - mu) * (v - mu) for v in f) / (n - 1))
        return [W.div(1e-7 + v - mu, 1e-7 + sd) for v in f]
    want = sum(p * q for p, q in zip(norm(fx), norm(fy))) / n
    W.check_close(out, [[[[want]]]], 1e-4, "correlation")
