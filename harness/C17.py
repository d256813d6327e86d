"""C17: halting rewards measure how many patterns survive, and how well their fate is predicted."""
from . import fakeca

BOUNDS = ("batches of 1-4 grids of 4x4..12x12 cells with 1-2 channels, 0-3 steps of an automaton that returns arbitrary states "
          "(each item empty or not, at each step, with arbitrary living cells); arbitrary predictions in [0,1]; all three "
          "prediction modes")
OUTSIDE = ("the training of the predictor by gradient descent; predictions within 1e-3 of one half, changes within 1e-6 of the "
           "threshold 1e-5")
ASSUMPTIONS = ["once every pattern of the batch is empty it stays empty"]


def cases(tier):
    out = []
    for b, d, s, c in ((1, 4, 1, 1), (3, 8, 2, 1), (4, 4, 3, 1), (2, 12, 2, 2), (3, 4, 0, 1), (4, 5, 1, 1)):
        out.append((f"simple-{b}-{d}-{s}-{c}", dict(kind="simple", b=b, d=d, steps=s, c=c)))
    for m in (0, 1, 2):
        for b, s in ((1, 2), (3, 1), (4, 0)):
            out.append((f"predict-{m}-{b}-{s}", dict(kind="predict", mode=m, b=b, steps=s)))
    for m in (0, 1, 2):
        # the states at the end keep still, or change a little, up or down
        out.append((f"still-{m}-2", dict(kind="predict", mode=m, b=2, steps=1, still=True)))
        out.append((f"still-{m}-1-2", dict(kind="predict", mode=m, b=1, steps=2, c=2, still=True)))
    out.append(("predict-channels", dict(kind="predict", mode=2, b=2, steps=1, c=2)))
    out.append(("accuracy", dict(kind="accuracy")))
    out.append(("random", dict(kind="random")))
    if tier == "thorough":
        for m in (0, 1, 2):
            out.append((f"predict-{m}-6-3", dict(kind="predict", mode=m, b=5, steps=3)))
        out.append(("simple-6", dict(kind="simple", b=6, d=8, steps=3, c=1)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def world(W, b, d, c, steps, tag="", still=False):
    """states after each step: item i lives through the first t_i steps, with arbitrary cells; still: the living cell stays
    where it is and changes its value by little or nothing"""
    alive = []
    for k in range(steps + 3):
        row = []
        for i in range(b):
            a = W.bool(f"{tag}alive{k}.{i}")
            row.append(a if not alive else W.and_(alive[-1][i], a))
        alive.append(row)

    def state(k, grid):
        out = []
        for i in range(b):
            it = [[[0.0] * d for _ in range(d)] for _ in range(c)]
            if still:
                x = W.real(f"{tag}x.{i}", 0.1, 0.9) + W.real(f"{tag}d{k}.{i}", -0.0004, 0.0004)
                k0 = 0
            else:
                x = W.real(f"{tag}x{k}.{i}", 0.05, 1.0)
                k0 = k
            it[(i + k0) % c][(i + k0) % d][(2 * k0 + i) % d] = W.ite(alive[k][i], x, 0.0)
            out.append(it)
        return out
    return alive, state


def run_simple(W, b, d, steps, c):
    alive, state = world(W, b, d, c, steps)
    cur = fakeca.script(W, state, external_channels=c)
    m = W.imp("yuca.wrappers.halting_wrapper")
    w = m.SimpleHaltingWrapper(ca_fn=fakeca.FakeCA, ca_steps=steps, batch_size=b, dim=d)
    act = [W.real(f"a{i}", 0.01, 0.9) for i in range(4)]
    W.seed("torch", 3)
    W.rng_mode = lambda lib, kind, shape, nm: "sym" if nm.endswith(":21") else "const"
    _, r, done, info = w.step(W.nparray(act))
    W.rng_mode = "const"
    first = cur["log"][0] if cur["log"] else None
    W.check(first is not None and first[0] == "set_params", "rule-is-set-first")
    W.check_close(first[1], act, 1e-6, "rule-that-was-asked-for")
    W.check_close(info["params"], act, 1e-6, "reported-rule")
    q = d // 4
    if steps:
        g0 = cur["inputs"][0]
        W.check(len(g0) == b and len(g0[0]) == c and len(g0[0][0]) == d, "start-shape")
        drawn = [xs for lib, kind, xs in W.drawn if lib == "torch" and kind == "u" and len(xs) == b * c * d * d][-1]
        n = 0
        for i in range(b):
            for ch in range(c):
                want = [[drawn[((i * c + ch) * d + y) * d + x] if q <= y < d - q and q <= x < d - q else 0.0
                         for x in range(d)] for y in range(d)]
                W.check_close(g0[i][ch], want, 1e-6, "start-is-a-random-square")
        frac = sum(W.ite(alive[steps - 1][i], 1.0, 0.0) for i in range(b)) / b
    else:
        frac = 1.0
    W.check(len(cur["inputs"]) <= steps, "steps-taken")
    for k in range(1, len(cur["inputs"])):
        W.check_close(cur["inputs"][k], state(k - 1, None), 1e-6, "steps-follow-each-other")
    W.check_close(W.num(info["active_grid"]), frac, 1e-5, "survivors")
    W.check_close(W.num(r), -W.max(0.5001 - frac, frac - 0.5001), 1e-5, "reward")
    W.check(not done, "not-done")


def run_predict(W, mode, b, steps, c=1, still=False):
    d = 4
    tag = "p"
    alive, state = world(W, b, d, c, steps + 8, tag, still)
    cur = fakeca.script(W, state, external_channels=c)
    m = W.imp("yuca.wrappers.halting_wrapper")
    w = m.HaltingWrapper(ca_fn=fakeca.FakeCA, ca_steps=steps, batch_size=b, dim=d, prediction_mode=mode, num_blocks=1)
    w.reset()
    w.train_steps = 0
    w.bigbang_steps = 2
    n = 2 if mode == 2 else 1
    pred = [[W.real(f"pred{i}.{j}", 0.0, 1.0) for j in range(n)] for i in range(b)]
    for r in pred:
        for x in r:
            W.assume(abs(x - 0.5) >= 1e-3)
    seen = []
    w.forward = lambda g: (seen.append(W.L(g)), W.tensor(pred))[1]
    act = [W.real(f"a{i}", 0.01, 0.9) for i in range(4)]
    W.seed("torch", 5)
    W.rng_mode = lambda lib, kind, shape, nm: "sym" if nm.endswith(":3") else "const"
    _, r, done, info = w.step(W.nparray(act))
    W.rng_mode = "const"
    drawn = [xs for lib, kind, xs in W.drawn if lib == "torch" and kind == "u" and len(xs) == b * c * d * d][-1]
    g0 = cur["inputs"][0]
    W.check_close([x for i in g0 for ch in i for row in ch for x in row], drawn, 1e-6, "start-is-random")
    W.check_close(cur["log"][0][1], act, 1e-6, "rule-that-was-asked-for")
    W.check_close(seen[0], state(1, None), 1e-6, "prediction-from-early-state")
    # the automaton is asked for steps 0.. ; the last one asked shows whether the end state still changes
    end = len(cur["inputs"]) - 2
    W.check(end <= 1 + steps, "steps-taken", info=f"{end}")
    sE, sN = state(end, None), state(end + 1, None)
    tgt = []
    for i in range(b):
        live = W.ite(alive[end][i], 1.0, 0.0)
        d2 = W.max_all([W.max(x - y, y - x) for cx, cy in zip(sE[i], sN[i]) for rx, ry in zip(cx, cy) for x, y in zip(rx, ry)])
        for z in [d2]:
            W.assume(W.or_(z <= 0.9e-5, z >= 1.1e-5))
        dyn = W.ite(d2 > 1e-5, 1.0, 0.0)
        tgt.append({0: [live], 1: [dyn], 2: [live, dyn]}[mode])
    if end < 1 + steps:
        # stopped early: nothing was alive any more
        for i in range(b):
            W.check(W.not_(alive[end][i]), "stops-early-only-when-empty")
    hits = sum(W.ite((pred[i][j] > 0.5) if isinstance(pred[i][j], bool) else W.iff(pred[i][j] > 0.5, tgt[i][j] > 0.5), 1.0, 0.0)
               for i in range(b) for j in range(n)) / (b * n)
    W.check_close(W.num(r), -hits, 1e-5, "reward-is-minus-accuracy")
    W.check_close(W.num(info["active_grid"]), sum(x for t in tgt for x in t) / (b * n), 1e-5, "active-grid")
    W.check_close(info["params"], act, 1e-6, "reported-rule")


def run_accuracy(W):
    fakeca.script(W, lambda k, g: g)
    m = W.imp("yuca.wrappers.halting_wrapper")
    w = m.HaltingWrapper(ca_fn=fakeca.FakeCA, ca_steps=1, batch_size=1, dim=4)
    p = [[W.real(f"p{i}", 0.0, 1.0)] for i in range(4)]
    t = [[W.real(f"t{i}", 0.0, 1.0)] for i in range(4)]
    for (x,), (y,) in zip(p, t):
        W.assume(abs(x - 0.5) >= 1e-3)
        W.assume(abs(y - 0.5) >= 1e-3)
    a = w.get_accuracy(W.tensor(p), W.tensor(t))
    W.check_close(W.num(a), sum(W.ite(W.iff(x > 0.5, y > 0.5), 1.0, 0.0) for (x,), (y,) in zip(p, t)) / 4, 1e-5, "accuracy")


def run_random(W):
    """the control wrapper rewards by chance: the rule has no influence and the reward is in [0, 1)"""
    cur = fakeca.script(W, lambda k, g: g)
    m = W.imp("yuca.wrappers.random_wrapper")
    w = m.RandomWrapper(ca_fn=fakeca.FakeCA, ca_steps=1, batch_size=2, dim=4)
    W.rng_mode = "sym"
    out = []
    for n in range(2):
        W.clock = 1.7e9  # the wrapper's generator is seeded from the clock
        W.seed("torch", 1)
        W.seed("np", 1)
        _, r, done, info = w.step(W.nparray([W.real(f"a{n}.{i}", -1.0, 1.0) for i in range(4)]))
        out.append(W.num(r))
        W.check_range(out[-1:], 0.0, 1.0, 1e-6, "reward-range")
    W.check_close(out[0], out[1], 1e-6, "reward-independent-of-the-rule")
    W.check(not cur["inputs"], "no-steps")
