"""C18: the glider reward is the distance travelled minus the change of mass."""
from . import fakeca

BOUNDS = ("single patterns of 1-2 channels on 6x6..12x12 grids, kernel radius 1-3, 1-4 steps of an automaton that returns arbitrary "
          "masses at 2-3 cells per state anywhere on the grid, jumps across the edge, empty and unchanging states included; masses of 0.1 to 1, and faint ones of 2e-4 to 1e-2 (8x8) and 1e-3 to 4e-2 (24x24)")
OUTSIDE = ("batches of several patterns (the reward of a batch is not specified); states whose mass lies entirely in the first "
           "column; changes within 1e-6 of the threshold 1e-5; displacements within 1e-3 of the wrap-around window")
ASSUMPTIONS = ["cell values are non-negative"]
EPS = 1e-6


def cases(tier):
    out = []
    for d, r, s, c in ((6, 1, 1, 1), (6, 1, 2, 1), (8, 2, 3, 1), (7, 1, 2, 2), (12, 3, 2, 1)):
        out.append((f"travel-{d}-{r}-{s}-{c}", dict(kind="travel", d=d, r=r, steps=s, c=c)))
    out.append(("wrap", dict(kind="travel", d=8, r=1, steps=3, c=1, cols=((5, 6), (6, 7), (0, 1)))))
    out.append(("wrap-radius", dict(kind="travel", d=10, r=2, steps=3, c=1, cols=((7, 8), (8, 9), (0, 2)))))
    out.append(("wrap-edge", dict(kind="travel", d=8, r=1, steps=2, c=1, cols=((5, 7), (1, 3)))))
    out.append(("backwards", dict(kind="travel", d=8, r=1, steps=2, c=1, cols=((1, 2), (6, 7)))))
    out.append(("bounces", dict(kind="travel", d=8, r=1, steps=3, c=1, cols=((3, 4), (2, 3), (4, 5)))))
    out.append(("bounces-2", dict(kind="travel", d=8, r=2, steps=4, c=1, cols=((4, 5), (3, 4), (5, 5), (2, 3)))))
    out.append(("swaps", dict(kind="swaps")))
    out.append(("dies", dict(kind="dies")))
    out.append(("still", dict(kind="still")))
    out.append(("shrinks", dict(kind="shrinks")))
    out.append(("faint", dict(kind="faint", d=8)))
    out.append(("small", dict(kind="faint", d=24)))
    out.append(("again", dict(kind="again")))
    out.append(("grid", dict(kind="grid")))
    out.append(("rule", dict(kind="rule")))
    if tier == "thorough":
        for i in range(8):
            out.append((f"wrap-{i}", dict(kind="travel", d=8, r=1, steps=3, c=1, cols=((i % 8, (i + 3) % 8), ((i + 2) % 8, 7), ((i * 3) % 7 + 1, 1)))))
        out.append(("travel-4", dict(kind="travel", d=8, r=2, steps=4, c=1)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def make(W, d, r, steps, c=1, state=None):
    cur = fakeca.script(W, state, external_channels=c, kernel_radius=r)
    m = W.imp("yuca.wrappers.glider_wrapper")
    w = m.GliderWrapper(ca_fn=fakeca.FakeCA, ca_steps=steps, batch_size=1, dim=d, external_channels=c)
    return w, cur


def blank(c, d):
    return [[[0.0] * d for _ in range(d)] for _ in range(c)]


def patterns(W, n, d, c, cols=None, tag=""):
    """n states with arbitrary mass at two cells each (rows and channels vary)"""
    out = []
    for k in range(n):
        g = blank(c, d)
        cc = cols[k] if cols and k < len(cols) else ((k * 2 + 1) % d, (k * 2 + 3) % d)
        for j, x in enumerate(cc):
            g[(k + j) % c][(k + 2 * j) % d][x] = W.real(f"{tag}m{k}.{j}", 0.1, 1.0)
        out.append([g])
    return out


def total(g):
    return sum(v for it in g for ch in it for row in ch for v in row)


def centre(g, r):
    t = total(g)
    return sum(v * (x / r) for it in g for ch in it for row in ch for x, v in enumerate(row) if not (isinstance(v, float) and v == 0)) / (t + EPS)


def spec(W, start, states, d, r, c):
    n = c * d * d
    span = (d - 1) / r
    rew, prev, pm = 0.0, None, total(start) / n
    for g in states:
        mean = total(g) / n
        gr = 1.0 - mean / (pm + EPS)
        rew = rew - W.max(gr, -gr)
        y = centre(g, r)
        if prev is not None:
            near = prev - (span - 2)
            for z in (near, y - 2):
                W.assume(W.or_(z >= 1e-3, z <= -1e-3))
            rew = rew + (y - prev) + W.ite(W.and_(near > 0, y < 2), span, 0.0)
        prev, pm = y, mean
    return rew


def run_travel(W, d, r, steps, c, cols=None):
    st = patterns(W, steps, d, c, cols)
    start = patterns(W, 1, d, c, ((2, 3),), "start")[0]
    w, cur = make(W, d, r, steps, c, lambda k, g: st[k])
    want = spec(W, start, st, d, r, c)
    x = W.tensor(start)
    _, rew, done, info = w.step(x)
    W.check(len(cur["inputs"]) == steps, "runs-all-steps")
    W.check_close(cur["inputs"][0], start, 1e-6, "starts-from-the-pattern")
    for k in range(1, steps):
        W.check_close(cur["inputs"][k], st[k - 1], 1e-6, "steps-follow-each-other")
    W.check_close(W.num(rew), want, 1e-4, "reward")
    W.check_close(W.L(x), start, 1e-6, "pattern-unchanged")
    W.check_close(W.num(info["active_grid"]), total(st[-1]) / (c * d * d), 1e-5, "active-grid")


def run_dies(W):
    """the run ends when the grid is empty"""
    d, r = 6, 1
    st = patterns(W, 1, d, 1) + [[blank(1, d)]] + patterns(W, 2, d, 1, tag="later")
    start = patterns(W, 1, d, 1, ((2, 3),), "start")[0]
    w, cur = make(W, d, r, 4, 1, lambda k, g: st[k])
    _, rew, _, info = w.step(W.tensor(start))
    W.check(len(cur["inputs"]) == 2, "stops-when-empty")
    W.check_close(W.num(info["active_grid"]), 0.0, 1e-6, "active-grid")
    y0 = centre(st[0], r)
    gr = 1.0 - (total(st[0]) / 36) / (total(start) / 36 + EPS)
    W.assume(W.or_(y0 - 3 <= -1e-3, y0 - 3 >= 1e-3))
    # the empty state has its centre at 0
    want = -W.max(gr, -gr) - 1.0 - y0 + W.ite(y0 > 3, 5.0, 0.0)
    W.check_close(W.num(rew), want, 1e-4, "reward")


def run_still(W):
    """the run ends when nothing changes any more, and not before"""
    d, r = 6, 1
    st = patterns(W, 1, d, 1)
    start = patterns(W, 1, d, 1, ((2, 3),), "start")[0]
    w, cur = make(W, d, r, 4, 1, lambda k, g: st[0])
    _, rew, _, _ = w.step(W.tensor(start))
    W.check(len(cur["inputs"]) == 2, "stops-when-still")
    gr = 1.0 - (total(st[0]) / 36) / (total(start) / 36 + EPS)
    m1 = total(st[0]) / 36
    W.check_close(W.num(rew), -W.max(gr, -gr) - (1.0 - m1 / (m1 + EPS)), 1e-4, "reward")


def run_shrinks(W):
    """a pattern that loses mass everywhere is not a still one"""
    d, r = 6, 1
    f = [W.real(f"f{i}", 0.3, 0.9) for i in range(3)]
    a, b = W.real("a", 0.4, 1.0), W.real("b", 0.4, 1.0)
    st, k = [], 1.0
    for i in range(3):
        k = k * f[i]
        g = blank(1, d)
        g[0][1][2], g[0][3][4] = a * k, b * k
        st.append([g])
    g = blank(1, d)
    g[0][1][2], g[0][3][4] = a, b
    w, cur = make(W, d, r, 3, 1, lambda k, x: st[k])
    _, rew, _, _ = w.step(W.tensor([g]))
    W.check(len(cur["inputs"]) == 3, "goes-on-while-changing")


def run_faint(W, d):
    """a faint (or small) pattern that keeps moving is neither an empty nor a still one"""
    r, n = 1, d * d
    lo, hi = (2e-4, 1e-2) if d == 8 else (1e-3, 4e-2)
    st = []
    for k in range(4):
        g = blank(1, d)
        g[0][k % 2 + 1][k + 1], g[0][3][k + 2] = W.real(f"m{k}.0", lo, hi), W.real(f"m{k}.1", lo, hi)
        st.append([g])
    w, cur = make(W, d, r, 3, 1, lambda k, x: st[k + 1])
    x = W.tensor(st[0])
    _, rew, _, info = w.step(x)
    W.check(len(cur["inputs"]) == 3, "goes-on-while-moving")
    W.check_close(W.num(info["active_grid"]), total(st[3]) / n, 1e-7, "active-grid")
    W.check_close(W.num(rew), spec(W, st[0], st[1:], d, r, 1), 2e-3, "reward")


def run_swaps(W):
    """mass that moves between channels, or along a column, is a change"""
    d, r = 6, 1
    a, b = W.real("a", 0.4, 1.0), W.real("b", 0.1, 0.3)
    st = []
    for k in range(3):
        g = blank(2, d)
        g[k % 2][1][1], g[(k + 1) % 2][1][1] = a, b
        st.append([g])
    g = blank(2, d)
    g[1][1][1], g[0][1][1] = a, b
    w, cur = make(W, d, r, 3, 2, lambda k, x: st[k])
    _, rew, _, _ = w.step(W.tensor([g]))
    W.check(len(cur["inputs"]) == 3, "goes-on-while-channels-change")
    W.check_close(W.num(rew), spec(W, [g], st, d, r, 2), 1e-4, "reward")
    st = []
    for k in range(3):
        g = blank(1, d)
        g[0][k % 2][1], g[0][k % 2 + 2][2] = a, b
        st.append([g])
    w, cur = make(W, d, r, 3, 1, lambda k, x: st[k])
    g = blank(1, d)
    g[0][1][1], g[0][3][2] = a, b
    _, rew, _, _ = w.step(W.tensor([g]))
    W.check(len(cur["inputs"]) == 3, "goes-on-while-rows-change")
    W.check_close(W.num(rew), spec(W, [g], st, d, r, 1), 1e-4, "reward")


def run_again(W):
    """scoring a second pattern does not depend on the first"""
    d, r = 6, 1
    st = patterns(W, 2, d, 1)
    start = patterns(W, 1, d, 1, ((2, 3),), "start")[0]
    w, cur = make(W, d, r, 2, 1, lambda k, g: st[k % 2])
    w.eval()
    _, r1, _, _ = w.step(W.tensor(start))
    r1 = W.num(r1)
    w.reset()
    _, r2, _, _ = w.step(W.tensor(start))
    W.check_close(W.num(r2), r1, 1e-6, "same-reward-again")
    W.check([e[0] for e in cur["log"]].count("reset") == 2, "automaton-reset-before-each-run")
    i = [k for k, e in enumerate(cur["log"]) if e[0] == "reset"]
    W.check(cur["log"][i[0] + 1][0] == "step" and cur["log"][i[1] + 1][0] == "step", "reset-first")


def run_grid(W):
    """the displacement is measured in kernel radii along the columns"""
    d = W.pick("d", [4, 5, 8])
    r = W.pick("r", [1, 2, 3])
    w, cur = make(W, d, r, 1, 1, lambda k, g: g)
    W.check_close(W.L(w.y_grid), [[[[x / r for x in range(d)] for _ in range(d)]]], 1e-5, "columns")
    W.check_close(W.L(w.x_grid), [[[[y / r for _ in range(d)] for y in range(d)]]], 1e-5, "rows")


def run_rule(W):
    """the automaton that is run is the configured one"""
    d = 5
    cur = fakeca.script(W, lambda k, g: g, external_channels=1, kernel_radius=1)
    m = W.imp("yuca.wrappers.glider_wrapper")
    w = m.GliderWrapper(ca_fn=fakeca.FakeCA, ca_steps=1, batch_size=1, dim=d, ca_config="orbium")
    W.check(cur["log"] == [("restore", "orbium")], "restores-the-config")
    W.makedirs(W.root + "/logs", exist_ok=True)
    p = [W.real(f"p{i}", 0.0, 1.0) for i in range(4)]
    W.np_save(W.root + "/logs/l.npy", {"elite_params": [[W.nparray([0.1, 0.2])], [W.nparray(p), W.nparray([0.3, 0.3])]]})
    cur = fakeca.script(W, lambda k, g: g, external_channels=1, kernel_radius=1)
    w = m.GliderWrapper(ca_fn=fakeca.FakeCA, ca_steps=1, batch_size=1, dim=d, input_filepath=W.root + "/logs/l.npy")
    W.check(cur["log"] and cur["log"][0][0] == "set_params", "sets-parameters")
    W.check_close(cur["log"][0][1], p, 1e-6, "the-last-generation's-fittest")
