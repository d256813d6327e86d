"""C22: the analysis of a universe reports how many patterns die or escape, and when."""
from . import fakeca

BOUNDS = ("batches of 1-3 patterns on 4x4..8x8 grids, 1-4 steps of an automaton returning arbitrary states (each pattern dying at any "
          "step or never, with arbitrary living cells inside and on the border at arbitrary steps), random and CPPN starts")
OUTSIDE = "the numbers of entropy and correlation themselves (C21); patterns that come back after they died; printing"
ASSUMPTIONS = ["a pattern that is empty stays empty"]


def cases(tier):
    out = []
    for b, d, s in ((1, 4, 1), (2, 4, 2), (3, 4, 3), (2, 6, 3), (2, 8, 2)):
        out.append((f"counts-{b}-{d}-{s}", dict(kind="counts", b=b, d=d, steps=s)))
    out.append(("start", dict(kind="start", d=8)))
    out.append(("start-odd-half", dict(kind="start", d=6)))
    out.append(("start-cppn", dict(kind="start", d=8, cppn=True)))
    out.append(("measures", dict(kind="measures")))
    out.append(("ends", dict(kind="ends")))
    out.append(("edges", dict(kind="edges")))
    out.append(("ends-many", dict(kind="many", b=10)))
    out.append(("folder", dict(kind="folder")))
    if tier == "thorough":
        out.append(("counts-4-4-4", dict(kind="counts", b=4, d=4, steps=4)))
        out.append(("counts-3-6-5", dict(kind="counts", b=3, d=6, steps=5)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def make(W, b, d, steps, state, cppn=False):
    cur = fakeca.script(W, state, kernel_radius=1)
    m = W.imp("yuca.analyze")
    a = m.Phanes(batch_size=b, dim=d, ca_steps=steps, use_cppn=cppn)
    a.ca = fakeca.FakeCA()
    cur["entropy"] = []
    a.get_spatial_entropy = lambda g, window_size=63: (cur["entropy"].append((W.L(g), window_size)), W.nparray([[1.0, 3.0]]))[1]
    cur["corr"] = []
    a.autocorrelate = lambda g, h: (cur["corr"].append((W.L(g), W.L(h))), W.nparray([0.5, 1.5]))[1]
    return m, a, cur


def world(W, b, d, steps):
    alive, border = [], []
    for k in range(steps):
        alive.append([W.bool(f"alive{k}.{i}") if k == 0 else W.and_(alive[-1][i], W.bool(f"alive{k}.{i}")) for i in range(b)])
        border.append([W.bool(f"border{k}.{i}") for i in range(b)])
    edge = [(0, 1), (d - 1, 2), (1, 0), (2, d - 1), (0, 0), (d - 1, d - 1)]

    def state(k, grid):
        out = []
        for i in range(b):
            g = [[0.0] * d for _ in range(d)]
            g[1 + (i + k) % (d - 2)][1 + k % (d - 2)] = W.ite(alive[k][i], W.real(f"x{k}.{i}", 0.05, 1.0), 0.0)
            y, x = edge[(i + 2 * k) % 6]
            g[y][x] = W.ite(W.and_(alive[k][i], border[k][i]), W.real(f"e{k}.{i}", 0.05, 1.0), 0.0)
            out.append([g])
        return out
    return alive, border, state


def run_counts(W, b, d, steps):
    alive, border, state = world(W, b, d, steps)
    m, a, cur = make(W, b, d, steps, state)
    W.seed("torch", 2)
    r = a.analyze_universe()
    n = len(cur["inputs"])
    W.check(1 <= n <= steps, "steps-taken")
    W.check([int(s) for s in r["step"]] == list(range(n)), "steps-reported")
    if n < steps:
        for i in range(b):
            W.check(W.not_(alive[n - 1][i]), "stops-early-only-when-all-died")
    for k in range(n - 1):
        W.check(W.or_(*[alive[k][i] for i in range(b)]), "stops-when-all-died")
    one = lambda c: W.ite(c, 1.0, 0.0)
    for k in range(n):
        W.check_close(W.num(r["mortality_ratio"][k]), sum(one(W.not_(alive[k][i])) for i in range(b)) / b, 1e-5, "mortality")
        W.check_close(W.num(r["fertility_ratio"][k]), sum(one(W.and_(alive[k][i], border[k][i])) for i in range(b)) / b, 1e-5, "fertility")
    last = W.L(r["last_step"])
    for i in range(b):
        want = -1.0
        for k in reversed(range(n)):
            want = W.ite(alive[k][i], want, float(k))
        W.check_close(last[i], want, 1e-6, "when-it-died")
    for k in range(1, n):
        W.check_close(cur["inputs"][k], state(k - 1, None), 1e-6, "steps-follow-each-other")


def run_start(W, d, cppn=False):
    """patterns start inside the central half"""
    b, q = 2, d // 4
    m, a, cur = make(W, b, d, 1, lambda k, g: g, cppn)
    if cppn:
        pats = [[[[W.real(f"c{n}.{i}.{j}", 0.01, 1.0) if (i + j + n) % 3 == 0 else 0.4 for j in range(d)] for i in range(d)]] for n in range(b)]
        made = []

        class C:
            def __init__(self, **k):
                made.append(k)

            def get_action(self):
                return W.tensor([pats[len(made) - 1]])
        m.CPPN = C
    W.seed("torch", 2)
    W.rng_mode = "sym"
    a.analyze_universe()
    g = cur["inputs"][0]
    if cppn:
        W.check(len(made) == b and all(k.get("dim") == d for k in made), "one-cppn-each")
        lo, hi = q, d - q
        for n in range(b):
            want = [[pats[n][0][i][j] if lo <= i < hi and lo <= j < hi else 0.0 for j in range(d)] for i in range(d)]
            W.check_close(g[n], [want], 1e-6, "cppn-pattern-in-the-middle")
    else:
        h = d // 2
        drawn = [xs for lib, kind, xs in W.drawn if lib == "torch" and len(xs) == b * h * h][-1]
        lo = h // 2
        for n in range(b):
            want = [[drawn[(n * h + i - lo) * h + j - lo] if lo <= i < lo + h and lo <= j < lo + h else 0.0 for j in range(d)] for i in range(d)]
            W.check_close(g[n], [want], 1e-6, "random-square-in-the-middle")


def run_measures(W):
    """entropy and correlation are taken of each state and of consecutive states"""
    st = [[[[[W.real(f"s{k}.{i}.{y}", 0.1, 1.0) if x == y else 0.2 for x in range(4)] for y in range(4)]] for i in range(2)] for k in range(3)]
    m, a, cur = make(W, 2, 4, 3, lambda k, g: st[k])
    W.seed("torch", 2)
    r = a.analyze_universe()
    W.check(len(cur["entropy"]) == 3 and len(cur["corr"]) == 3, "every-step-measured")
    for k in range(3):
        W.check_close(cur["entropy"][k][0], st[k], 1e-6, "entropy-of-the-state")
        W.check(cur["entropy"][k][1] == 3, "window-of-the-kernel's-size")
        W.check_close(cur["corr"][k][0], st[k], 1e-6, "correlated-state")
        W.check_close(cur["corr"][k][1], st[k - 1] if k else cur["inputs"][0], 1e-6, "with-the-state-before")
    W.check_close([W.num(v) for v in r["entropy_mean"]], [2.0] * 3, 1e-6, "entropy-mean")
    W.check_close([W.num(v) for v in r["entropy_std_dev"]], [1.0] * 3, 1e-6, "entropy-deviation")
    W.check_close([[W.num(x) for x in v] for v in r["autocorrelation"]], [[1.0, 0.5, 0.5, 1.5]] * 3, 1e-6, "correlation-summary")


def run_ends(W):
    """the run ends with the step after which every pattern is empty"""
    k0 = W.pick("dies", [0, 1, 2])
    x = W.real("x", 0.1, 1.0)

    def state(k, g):
        return [[[[x if (k < k0 and i == j) else 0.0 for j in range(4)] for i in range(4)]]]
    m, a, cur = make(W, 1, 4, 5, state)
    W.seed("torch", 2)
    r = a.analyze_universe()
    W.check(len(cur["inputs"]) == k0 + 1, "ends-when-empty")
    W.check_close(W.L(r["last_step"]), [float(k0)], 1e-6, "when-it-died")
    W.check_close(W.num(r["mortality_ratio"][-1]), 1.0, 1e-6, "all-died")


def run_many(W, b):
    """one surviving pattern of many keeps the run going"""
    x, y = W.real("x", 0.05, 1.0), W.real("y", 0.05, 1.0)

    def state(k, g):
        return [[[[(x if n == 3 else y if (n == 8 and k < 1) else 0.0) if i == j == 1 else 0.0 for j in range(4)] for i in range(4)]]
                for n in range(b)]
    m, a, cur = make(W, b, 4, 3, state)
    W.seed("torch", 2)
    r = a.analyze_universe()
    W.check(len(cur["inputs"]) == 3, "goes-on-while-one-lives", info=str(len(cur["inputs"])))
    W.check_close([W.num(v) for v in r["mortality_ratio"]], [1.0 - 2.0 / b] + [1.0 - 1.0 / b] * 2, 1e-5, "mortality")
    W.check_close(W.L(r["last_step"]), [-1.0 if n == 3 else 1.0 if n == 8 else 0.0 for n in range(b)], 1e-6, "when-it-died")


def run_edges(W):
    """a pattern has escaped when it reaches any border cell, and only then"""
    d = 6
    y, x = W.pick("y", list(range(d))), W.pick("x", list(range(d)))
    v = W.real("v", 0.05, 1.0)
    m, a, cur = make(W, 1, d, 1, lambda k, g: [[[[v if (i, j) == (y, x) else 0.0 for j in range(d)] for i in range(d)]]])
    W.seed("torch", 2)
    r = a.analyze_universe()
    W.check_close(W.num(r["fertility_ratio"][0]), 1.0 if 0 in (y, x) or d - 1 in (y, x) else 0.0, 1e-6, "escaped")
    W.check_close(W.num(r["mortality_ratio"][0]), 0.0, 1e-6, "alive")


def run_folder(W):
    """every rule of a folder is analyzed with that rule and saved under its name"""
    m, a, cur = make(W, 1, 4, 2, lambda k, g: g)
    W.makedirs(W.root + "/rules/", exist_ok=True)
    W.makedirs(W.root + "/ca_analysis", exist_ok=True)
    names = ("one", "two", "rule_dt0.1", "rule_dt0.2", "b.analysis", "npy")
    p = [W.real(f"p{i}", 0.0, 1.0) for i in range(len(names))]
    for n, v in zip(names, p):
        W.np_save(f"{W.root}/rules/{n}.npy", {"value": v})
    W.write_text(W.root + "/rules/readme.txt", "no rule")
    now = []
    a.ca.load_config = lambda c: now.append(c["value"])
    a.analyze_universe = lambda: {"step": [0], "mortality_ratio": [now[-1]], "fertility_ratio": [0.0],
                                  "autocorrelation": [[0.0] * 4], "entropy_mean": [0.0], "entropy_std_dev": [0.0]}
    a.input_directory = W.root + "/rules/"
    a.analyze_multiverse()
    W.check(len(now) == len(names), "every-rule-once", info=str(len(now)))
    for n, v in zip(names, p):
        r = W.np_load(f"{W.root}/ca_analysis/{n}cppnFalse_analysis.npy", allow_pickle=True).reshape(1)[0]
        W.check(r["name"] == n + ".npy", "name")
        W.check_close(W.num(r["mortality_ratio"][0]), v, 1e-6, "results-of-that-rule")
