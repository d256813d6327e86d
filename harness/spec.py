"""Reference model: the update rules written out in scalar arithmetic.

Works on python floats and on symbolic scalars alike (W supplies exp/min/max).
Independent of the implementation: nothing here imports /repo.
"""
import math

EPS = 1e-9


# -- grids are nested lists [B][C][H][W] ---------------------------------------------
def dims(u):
    return len(u), len(u[0]), len(u[0][0]), len(u[0][0][0])


def tget(ch, i, j, mode):
    """value at (i, j) of a 2-D list under a boundary mode"""
    H, Wd = len(ch), len(ch[0])
    if 0 <= i < H and 0 <= j < Wd:
        return ch[i][j]
    if mode == "circular":
        return ch[i % H][j % Wd]
    if mode == "zeros":
        return 0.0
    if mode == "replicate":
        return ch[min(max(i, 0), H - 1)][min(max(j, 0), Wd - 1)]
    if mode == "reflect":
        if i < 0:
            i = -i
        if i >= H:
            i = 2 * (H - 1) - i
        if j < 0:
            j = -j
        if j >= Wd:
            j = 2 * (Wd - 1) - j
        return ch[i][j]
    raise ValueError(mode)


def conv(u, kern, groups=1, mode="circular", bias=None):
    """kern [O][Cg][k][k]; 'same' size cross-correlation"""
    B, C, H, Wd = dims(u)
    O, Cg = len(kern), len(kern[0])
    Og = O // groups
    out = []
    for b in range(B):
        ob = []
        for o in range(O):
            g = o // Og
            plane = []
            for i in range(H):
                row = []
                for j in range(Wd):
                    s = 0.0 if bias is None else bias[o]
                    for c in range(Cg):
                        ch = u[b][g * Cg + c]
                        k = kern[o][c]
                        n, m = len(k), len(k[0])
                        p, q = (n - 1) // 2, (m - 1) // 2
                        for di in range(n):
                            for dj in range(m):
                                w = k[di][dj]
                                if type(w) is float and w == 0.0:
                                    continue
                                s = s + w * tget(ch, i + di - p, j + dj - q, mode)
                    row.append(s)
                plane.append(row)
            ob.append(plane)
        out.append(ob)
    return out


def bmap(f, *us):
    B, C, H, Wd = dims(us[0])
    return [[[[f(*[u[b][c][i][j] for u in us]) for j in range(Wd)] for i in range(H)] for c in range(C)] for b in range(B)]


def expand_kernel(k, O, Cg):
    """broadcast a [o][c][k][k] kernel to [O][Cg]"""
    rows = k if len(k) == O else [k[0]] * O
    return [r if len(r) == Cg else [r[0]] * Cg for r in rows]


def alive(W, u, thr):
    B, C, H, Wd = dims(u)
    return [[[[W.ite(u[b][3][i][j] > thr, u[b][c][i][j], 0.0) for j in range(Wd)] for i in range(H)]
             for c in range(C)] for b in range(B)]


# -- growth functions -------------------------------------------------------------------
def gauss(W, x, mu, sg):
    z = (x - mu) / (EPS + sg)
    return W.exp(-(z * z) / 2)


def act(W, cfg):
    """scalar growth function of a named config"""
    name = cfg["name"]
    mode = cfg.get("mode", 0)
    if name == "Gaussian":
        mu, sg = cfg.get("mu", 0.0), cfg.get("sigma", 0.1)
        return lambda x: gauss(W, x, mu, sg) * 2 - 1 if mode else gauss(W, x, mu, sg)
    if name == "DoGaussian":
        mu, sg, dx = cfg.get("mu", 0.0), cfg.get("sigma", 0.1), cfg.get("dx", 1e-2)

        def dog(x):
            g1, g2 = gauss(W, x + dx, mu, sg), gauss(W, x - dx, mu, sg)
            return g1 - g2 * 2 - 1 if mode else g1 - g2
        return dog
    if name == "DoubleGaussian":
        mu, sg = cfg["mu"], cfg["sigma"]
        mu = mu * 2 if len(mu) == 1 else mu
        sg = sg * 2 if len(sg) == 1 else sg

        def dbl(x):
            s = gauss(W, x, mu[0], sg[0]) + gauss(W, x, mu[1], sg[1])
            return W.clamp(s * 2 - 1, -1.0, 1.0) if mode else W.clamp(s, 0.0, 1.0)
        return dbl
    if name == "GaussianMixture":
        ps = list(cfg.get("parameters", [0.5, 0.15]))
        if len(ps) % 3 == 0:
            tr = [(ps[i], ps[i + 1], ps[i + 2]) for i in range(0, len(ps), 3)]
        else:
            tr = [(1.0, ps[i], ps[i + 1]) for i in range(0, len(ps), 2)]

        def mix(x):
            s = 0.0
            for a, m, g in tr:
                s = s + a * gauss(W, x, m, g)
            return W.clamp(s * 2 - 1, -1.0, 1.0) if mode else W.clamp(s, 0.0, 1.0)
        return mix
    if name == "Polynomial":
        cs = cfg.get("coefficients", [0.1, 0.1, 0.1])

        def poly(x):
            s, p = 0.0, 1.0
            for c in cs:
                s = s + c * p
                p = p * x
            return s * 2 - 1 if mode else s
        return poly
    if name == "ReLU":
        return lambda x: W.max(x, 0.0)
    if name == "Tanh":
        return lambda x: W.tanh(x)
    if name == "Identity":
        return lambda x: x
    if name == "SmoothIntervals":
        iv = cfg.get("parameters", [[0.185, 0.375]])
        al = cfg.get("alpha", 0.0125)

        def sg1(x, m):
            return 1.0 / (1.0 + W.exp(-4.0 * (x - m) / al))

        def sm(x):
            s = 0.0
            for lo, hi in iv:
                s = s + sg1(x, lo) * (1 - sg1(x, hi))
            return s * 2 - 1 if mode else s
        return sm
    if name == "CosOverX2":
        mu, om = cfg.get("mu", 0.0), cfg.get("omega", 25.12)

        def cs2(x):
            d = abs(mu - x)
            r = W.cos(om * d) / (1 + (10 * d) ** 2)
            return r if mode else r + 1.0
        return cs2
    raise ValueError(name)


# -- kernels (plain numbers) ---------------------------------------------------------------
class FloatW:
    """scalar ops on floats"""
    exp = staticmethod(lambda x: math.exp(x) if x < 700 else math.inf)
    cos = staticmethod(math.cos)
    tanh = staticmethod(math.tanh)
    max = staticmethod(max)
    min = staticmethod(min)

    @staticmethod
    def clamp(x, lo, hi):
        return min(max(x, lo), hi)


def radial(r, scale=1.0):
    return [[math.sqrt(x * x + y * y) / r * scale for x in range(-r, r + 1)] for y in range(-r, r + 1)]


def normalise(k):
    mn = min(min(row) for row in k)
    k = [[v - mn for v in row] for row in k]
    s = sum(sum(row) for row in k)
    return [[v / (EPS + s) for v in row] for row in k]


def kernel(cfg, W=FloatW):
    """the kernel of a named config as a 2-D list"""
    n = cfg["name"]
    if n == "InnerMoore":
        return [[0.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0]]
    r = cfg["radius"]
    if n == "MooreLike":
        m = (2 * r + 1) ** 2 - 1
        return [[0.0 if (i == r and j == r) else 1.0 / m for j in range(2 * r + 1)] for i in range(2 * r + 1)]
    kw = cfg.get("kernel_kwargs", {})
    g = radial(r)
    if n == "LaplacianOfGaussian":
        sg = kw.get("sigma", 0.5)
        k = [[-(1 / (math.pi * sg ** 4)) * (1 - x * x / (2 * sg * sg)) * math.exp(-x * x / (2 * sg * sg)) for x in row]
             for row in g]
        N = len(k) ** 2
        mean = sum(map(sum, k)) / N
        k = [[v - mean for v in row] for row in k]
        s = sum(abs(v) for row in k for v in row)
        return [[v / s for v in row] for row in k]
    if n == "SmoothLifeKernel":
        ra, ri = kw.get("r_a", 1.0), kw.get("r_i", 1.0 / 3.0)
        k = [[1.0 if ri <= x <= ra else 0.0 for x in row] for row in g]
        return normalise(k)
    f = act(W, dict(kw, name=n))
    return normalise([[f(x) for x in row] for row in g])


# -- one step ----------------------------------------------------------------------------------
def glaber(W, idn, nb, gens, pers):
    """(1 - id) * G(n) + id * P(n), channel by channel"""
    B, K, H, Wd = dims(nb)
    return [[[[(1.0 - idn[b][k][i][j]) * gens[k](nb[b][k][i][j]) + idn[b][k][i][j] * pers[k](nb[b][k][i][j])
               for j in range(Wd)] for i in range(H)] for k in range(K)] for b in range(B)]


def mix(gp, weights):
    """1x1 convolution, weights [ext][int]"""
    B, K, H, Wd = dims(gp)
    out = []
    for b in range(B):
        ob = []
        for e in range(len(weights)):
            pl = []
            for i in range(H):
                row = []
                for j in range(Wd):
                    s = 0.0
                    for k in range(K):
                        s = s + weights[e][k] * gp[b][k][i][j]
                    row.append(s)
                pl.append(row)
            ob.append(pl)
        out.append(ob)
    return out


class Model:
    """a continuous automaton in plain numbers"""

    def __init__(self, ext, inn, nbk, gens, pers, dt, idk=None, mode="circular", thr=0.1):
        self.ext, self.inn, self.mode, self.dt, self.thr = ext, inn, mode, dt, thr
        self.groups = ext if inn % ext == 0 else 1
        cg = ext // self.groups
        self.nbk = expand_kernel(nbk, inn, cg)
        self.idk = expand_kernel(idk or [[kernel({"name": "InnerMoore"})]], inn, cg)
        self.gens, self.pers = gens, pers
        self.weights = [[1.0 / (ext * inn)] * inn for _ in range(ext)]

    def parts(self, W, u, alive_on=True):
        if len(u[0]) >= 4 and alive_on:
            u = alive(W, u, self.thr)
        idn = conv(u, self.idk, self.groups, self.mode)
        nb = conv(u, self.nbk, self.groups, self.mode)
        upd = mix(glaber(W, idn, nb, [act(W, c) for c in self.gens], [act(W, c) for c in self.pers]), self.weights)
        new = bmap(lambda x, d: W.clamp(x + self.dt * d, 0.0, 1.0), u, upd)
        return u, idn, nb, upd, new

    def step(self, W, u):
        return self.parts(W, u)[-1]


def kernel_sym(W, cfg):
    """kernel() for arbitrary (symbolic) parameters"""
    r, kw, name = cfg["radius"], cfg["kernel_kwargs"], cfg["name"]
    if name == "SmoothLifeKernel":
        f = lambda x: W.ite(W.and_(x >= kw["r_i"], x <= kw["r_a"]), 1.0, 0.0)
    else:
        f = act(W, dict(kw, name=name))
    memo, rows = {}, []
    for y in range(-r, r + 1):
        row = []
        for x in range(-r, r + 1):
            q = x * x + y * y
            if q not in memo:
                memo[q] = f(math.sqrt(q) / r)
            row.append(memo[q])
        rows.append(row)
    flat = [x for row in rows for x in row]
    mn = W.min_all(flat)
    mass = 0.0
    for x in flat:
        mass = mass + (x - mn)
    inv = W.div(1.0, EPS + mass)
    return [[(x - mn) * inv for x in row] for row in rows]
