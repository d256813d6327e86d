"""C09: a Life-like configuration is exactly that Life-like rule."""
from .common import CLASSES, cls

BOUNDS = ("one step of a cell within 1e-3 of 0 or 1 from every neighborhood in [0,1] whose sum is within 0.008 of a count (all counts, "
          "hence every binary arrangement with errors up to 1e-3), hence by induction over hundreds of steps from binary states; 13 rules with births and survivals from "
          "0 to 8 neighbors, the shipped Life-like rules; whole 4x5 grids with 4 symbolic cells")
OUTSIDE = "neighborhoods of radius other than 1; time steps other than the configuration's"
ASSUMPTIONS = []
EPS, STEP = 1e-3, 2e-6

RULES = {
    "life": ([3], [2, 3]), "morley": ([3, 6, 8], [2, 4, 5]), "seeds": ([2], []), "daynight": ([3, 6, 7, 8], [3, 4, 6, 7, 8]),
    "ends": ([1, 8], [0, 8]), "highlife": ([3, 6], [2, 3]), "diamoeba": ([3, 5, 6, 7, 8], [5, 6, 7, 8]),
    "replicator": ([1, 3, 5, 7], [1, 3, 5, 7]), "nothing": ([], [4]),
    "maze": ([3], [1, 2, 3, 4, 5]), "zero": ([0, 4], [7]), "all": (list(range(1, 9)), list(range(9))), "frogs": ([3, 4], [1, 2]),
}

OPTS = {"qtimeout_quick": 90}


def cases(tier):
    out = []
    for n in RULES:
        if len(RULES[n][0] + RULES[n][1]) < 4:
            out.append((n, dict(kind="rule", n=n)))
            continue
        for c in (0, 1):
            for lo, hi in ((0, 4), (5, 8)):
                out.append((f"{n}-{c}-{lo}{hi}", dict(kind="rule", n=n, only=(c, lo, hi))))
    out.append(("shipped-conway", dict(kind="rule", n="life", shipped="conway_life.npy")))
    for c in (0, 1):
        for lo, hi in ((0, 2), (3, 5), (6, 8)):
            out.append((f"shipped-morley-{c}-{lo}{hi}", dict(kind="rule", n="morley", shipped="morley.npy", only=(c, lo, hi))))
    for n in ("life", "morley", "ends"):
        out.append(("grid-" + n, dict(kind="grid", n=n)))
    out.append(("glider", dict(kind="glider")))
    out.append(("default", dict(kind="rule", n="life", default=True)))
    if tier == "thorough":
        for n in ("daynight", "seeds", "highlife"):
            out.append(("grid-" + n, dict(kind="grid", n=n, k=6)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def automaton(W, n, klass="CCA", shipped=None, default=False):
    ca = cls(W, CLASSES[klass])(kernel_radius=1) if klass != "CODE" else cls(W, CLASSES[klass])()
    if shipped:
        ca.restore_config(shipped, verbose=False)
    else:
        b, s = RULES[n]
        f = W.imp("yuca.configs").get_life_like_config
        ca.load_config(f() if default else f(birth=list(b), survival=list(s)))
    ca.no_grad()
    return ca


def run_rule(W, n, klass="CCA", shipped=None, default=False, only=(None, 0, 8)):
    """one cell, all its neighborhoods"""
    b, s = RULES[n]
    ca = automaton(W, n, klass, shipped, default)
    k = W.pick("count", list(range(only[1], only[2] + 1)))
    c = W.pick("center", [0, 1]) if only[0] is None else only[0]
    near = [[0.0] * 3 for _ in range(3)]
    total = 0.0
    for i in range(3):
        for j in range(3):
            if (i, j) == (1, 1):
                near[i][j] = W.real("c", 0.0, EPS) if c == 0 else W.real("c", 1 - EPS, 1.0)
            else:
                near[i][j] = W.real(f"n:{i}:{j}", 0.0, 1.0)
                total = total + near[i][j]
    W.assume(W.and_(total >= k - 8 * EPS, total <= k + 8 * EPS))
    u = [[[[0.0, 1.0, 1.0, 0.0, 1.0], [1.0, 0, 0, 0, 0.0], [0.0, 0, 0, 0, 1.0], [1.0, 0, 0, 0, 1.0], [0.0, 1.0, 0.0, 1.0, 1.0]]]]
    for i in range(3):
        for j in range(3):
            u[0][0][1 + i][1 + j] = near[i][j]
    new = W.L(ca(W.tensor(u)))[0][0][2][2]
    alive = 1.0 if k in (s if c else b) else 0.0
    W.check(W.and_(new >= alive - EPS - STEP, new <= alive + EPS + STEP), f"next-{'alive' if alive else 'dead'}",
            info=f"{c} with {k} neighbors became {new if W.concrete else ''}")


def life(b, s, g):
    h, w = len(g), len(g[0])
    return [[1.0 if sum(g[(i + x) % h][(j + y) % w] for x in (-1, 0, 1) for y in (-1, 0, 1) if (x, y) != (0, 0))
             in (s if g[i][j] else b) else 0.0 for j in range(w)] for i in range(h)]


def run_grid(W, n, k=4):
    """every cell of a grid, borders included, two steps"""
    b, s = RULES[n]
    ca = automaton(W, n)
    g = [[(3 * i + 5 * j + i * j) % 3 % 2 for j in range(5)] for i in range(4)]
    for t in range(k):
        i, j = (t * 3) % 4, (t * 2 + t // 3) % 5
        g[i][j] = 1 if W.pick(f"b{t}", [0, 1]) else 0
    t = W.tensor([[[[float(x) for x in r] for r in g]]])
    for step in range(2):
        t = ca(t)
        g = life(b, s, g)
        W.check_close(W.L(t), [[g]], 1e-5, f"step-{step}")


def run_glider(W):
    """the library's glider moves one cell diagonally every four steps"""
    ca = automaton(W, "life")
    p = W.L(W.imp("yuca.patterns").get_glider())
    while isinstance(p[0][0], list):
        p = p[0]
    h = w = max(len(p), len(p[0])) + 3
    y, x = W.pick("y", [0, 2]), W.pick("x", [0, 1])
    g = [[0.0] * w for _ in range(h)]
    for i, r in enumerate(p):
        for j, v in enumerate(r):
            g[(i + y) % h][(j + x) % w] = v
    t = W.tensor([[g]])
    ref = g
    for k in range(8):
        t = ca(t)
        ref = life([3], [2, 3], ref)
        W.check_close(W.L(t), [[ref]], 1e-5, f"generation-{k}")
    a = W.L(t)[0][0]
    W.check(any(all(abs(a[(i + 2 * dy) % h][(j + 2 * dx) % w] - g[i][j]) < 1e-3 for i in range(h) for j in range(w))
                for dy in (-1, 1) for dx in (-1, 1)), "glides")
