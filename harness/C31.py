"""C31: step predictors apply all their layers, and their error is the mean over samples of the summed squared error."""
from engine.wbase import nest

BOUNDS = ("predictors of 1-4 layer pairs, radius 1-2, 1-2 hidden and 1-2 outer channels with up to 6 arbitrary weights on arbitrary 3x3 "
          "and 2x4 inputs; tests sets of 1-5 samples in all splits listed")
OUTSIDE = "gradient descent itself (autograd), data loaders, wall times, the printed table"
ASSUMPTIONS = []


def cases(tier):
    out = []
    for n, r, h, o in ((1, 1, 1, 1), (2, 1, 1, 1), (1, 1, 2, 2), (1, 2, 1, 1), (3, 1, 1, 1), (4, 1, 1, 1)):
        out.append((f"forward-{n}-{r}-{h}-{o}", dict(kind="forward", n=n, r=r, h=h, o=o)))
    out.append(("wide", dict(kind="forward", n=1, r=1, h=1, o=1, H=2, Wd=4)))
    out.append(("dropout", dict(kind="dropout")))
    for s in ([2], [1, 1], [2, 1], [1, 3, 1]):
        out.append(("evaluate-" + "-".join(map(str, s)), dict(kind="evaluate", split=s)))
    out.append(("state", dict(kind="state")))
    if tier == "thorough":
        for n, r, h, o in ((2, 2, 2, 2), (4, 1, 2, 1), (3, 1, 1, 3)):
            out.append((f"forward-{n}-{r}-{h}-{o}", dict(kind="forward", n=n, r=r, h=h, o=o)))
        out.append(("evaluate-5", dict(kind="evaluate", split=[5])))
    out.append(("final", dict(kind="final")))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def predictor(W, n=1, r=1, h=1, o=1, **kw):
    return W.imp("yuca.step_predictor").StepPredictor(layer_repeats=n, kernel_radius=r, hidden_channels=h, out_channels=o, **kw)


def weights(W, m, n, r, h, o, k=6):
    """the predictor's weights, some of them arbitrary: list of (w1, b1, w2, b2) as set in the predictor through its state"""
    names = [x for x, _ in m.named_parameters()]
    W.check(len(names) == 4 * n, "all-weights-registered", info=str(names))
    s = 2 * r + 1
    sd, out, left = {}, [], k
    for i in range(n):
        layer = []
        for t, sh in enumerate(((h, o, s, s), (h,), (o, h, 1, 1), (o,))):
            num = 1
            for x in sh:
                num *= x
            v = [round(((7 * q + 3 * i + 5 * t) % 11 - 5) / 17, 4) for q in range(num)]
            if left > 0 and i == n - 1:
                for q in {num // 2, 0}:
                    v[q] = W.real(f"w{t}:{q}", -1.0, 1.0)
                    left -= 1
            v = nest(v, sh)
            sd[names[4 * i + t]] = W.tensor(v)
            layer.append(v)
        out.append(layer)
    m.load_state_dict(sd)
    return out


def relu(W, x):
    return W.max(x, 0.0)


def forward(W, layers, x, r):
    """x: channels x H x W"""
    C, H, Wd = len(x), len(x[0]), len(x[0][0])
    for w1, b1, w2, b2 in layers:
        hid = [[[relu(W, b1[k] + sum(w1[k][c][a][b] * x[c][i + a - r][j + b - r] for c in range(C)
                                     for a in range(2 * r + 1) for b in range(2 * r + 1)
                                     if 0 <= i + a - r < H and 0 <= j + b - r < Wd))
                 for j in range(Wd)] for i in range(H)] for k in range(len(w1))]
        x = [[[x[c][i][j] + W.sigmoid(b2[c] + sum(w2[c][k][0][0] * hid[k][i][j] for k in range(len(w1))))
               for j in range(Wd)] for i in range(H)] for c in range(C)]
    return x


def run_forward(W, n, r, h, o, H=3, Wd=3):
    m = predictor(W, n, r, h, o)
    L = weights(W, m, n, r, h, o)
    m.eval()
    x = [[[[round(0.05 + 0.9 * ((3 * i + 5 * j + 7 * c) % 8) / 8, 3) for j in range(Wd)] for i in range(H)] for c in range(o)]]
    x[0][0][0][0] = W.real("x", 0.0, 1.0)
    x[0][-1][H - 1][1] = W.real("y", 0.0, 1.0)
    t = W.tensor(x)
    y = m(t)
    W.check_close(W.L(y)[0], forward(W, L, x[0], r), 1e-3, "forward")
    W.check_close(W.L(t), x, 1e-5, "input-kept")


def run_dropout(W):
    """dropout acts while training only"""
    m = predictor(W, 1, 1, 2, 1, dropout=0.5)
    L = weights(W, m, 1, 1, 2, 1)
    x = [[[[0.2, 0.7], [0.4, W.real("x", 0.0, 1.0)]]]]
    m.eval()
    a = W.L(m(W.tensor(x)))
    W.check_close(W.L(m(W.tensor(x))), a, 1e-5, "deterministic")
    W.check_close(a[0], forward(W, L, x[0], 1), 1e-3, "no-dropout")


def batches(W, split, H=2, Wd=2):
    out, k = [], 0
    for n in split:
        bx, by = [], []
        for _ in range(n):
            bx.append([[[W.real(f"x{k}", 0.0, 1.0) if (i, j) == (0, 0) else round(0.1 * (i + 2 * j + k % 3), 2) for j in range(Wd)]
                        for i in range(H)]])
            by.append([[[W.real(f"y{k}", 0.0, 1.0) if (i, j) == (1, 1) else round(0.2 * (i + j), 2) for j in range(Wd)]
                        for i in range(H)]])
            k += 1
        out.append((bx, by))
    return out


def run_evaluate(W, split):
    m = predictor(W, 1, 1, 1, 1, dropout=0.5)
    L = weights(W, m, 1, 1, 1, 1, 0)
    m.train()
    bs = batches(W, split)
    got = m.evaluate([(W.tensor(x), W.tensor(y)) for x, y in bs])
    total = 0.0
    for bx, by in bs:
        for x, y in zip(bx, by):
            f = forward(W, L, x, 1)
            for i in range(2):
                for j in range(2):
                    d = f[0][i][j] - y[0][i][j]
                    total = total + d * d
    W.check_close([W.num(got)], [total / sum(split)], 2e-3, "mean-squared-error-per-sample")


def run_state(W):
    """saved weights restore the predictor"""
    a, b = predictor(W, 2, 1, 1, 1, seed=1), predictor(W, 2, 1, 1, 1, seed=2)
    weights(W, a, 2, 1, 1, 1, 4)
    a.eval()
    b.eval()
    b.load_state_dict(a.state_dict())
    x = [[[[0.2, W.real("x", 0.0, 1.0)], [0.9, 0.4]]]]
    W.check_close(W.L(b(W.tensor(x))), W.L(a(W.tensor(x))), 1e-6, "restored")


def run_final(W):
    """the final report is of the three sets, in that order"""
    m = predictor(W, 1, 1, 1, 1)
    W.makedirs(W.root + "/logs", exist_ok=True)
    seen = []
    vals = {"a": 1.5, "b": 2.25, "c": 4.125}
    m.evaluate = lambda d: (seen.append(d), vals[d])[1]
    m.end_evaluate("a", "b", "c")
    f = [x for x in W.listdir(W.root + "/logs") if x.endswith("_final.txt")]
    W.check(len(f) == 1, "one-report", info=str(f))
    t = W.read_text(W.root + "/logs/" + f[0])
    i, j, k = t.find("train loss: 1.5"), t.find("val loss: 2.25"), t.find("test loss: 4.125")
    W.check(0 <= i < j < k, "report", info=t)
