"""C37: the predictor of the halting wrapper is trained on what the rule's universes become."""
from . import fakeca
from .C17 import world

BOUNDS = ("1-3 training rounds on batches of 1-3 grids of 4x4 cells with 1-2 channels, 0-2 steps of an automaton that returns "
          "arbitrary states (each grid empty or not, still or changing, arbitrary living cells); arbitrary predictions; all three "
          "prediction modes; networks of 1-2 blocks on arbitrary single cells of 4x4 and 8x8 grids; stand-in blocks that are "
          "arbitrary affine maps")
OUTSIDE = ("what Adam does with a gradient; changes between the thresholds of training and scoring (1e-5 to 1e-2); the weights of "
           "the three convolutions of a block")
ASSUMPTIONS = ["once every pattern of the batch is empty it stays empty",
               "an optimizer's step leaves the network as it is (the predictions of each round are arbitrary instead)"]


def cases(tier):
    out = []
    for m in (0, 1, 2):
        out.append((f"train-{m}-1-2", dict(kind="train", mode=m, b=1, rounds=2, steps=1)))
        out.append((f"train-{m}-2-1", dict(kind="train", mode=m, b=2, rounds=1, steps=2)))
        out.append((f"train-{m}-2-0", dict(kind="train", mode=m, b=2, rounds=1, steps=0, c=2)))
    for m in (0, 2):
        out.append((f"network-{m}", dict(kind="network", mode=m, blocks=1, d=4)))
    out.append(("network-channels", dict(kind="network", mode=1, blocks=1, d=2, c=2)))
    out.append(("pooled", dict(kind="pooled", mode=0, blocks=1, d=4)))
    out.append(("pooled-two", dict(kind="pooled", mode=2, blocks=2, d=8)))
    out.append(("pooled-channels", dict(kind="pooled", mode=0, blocks=2, d=4, c=2)))
    for m in (0, 1, 2):
        out.append((f"fresh-{m}", dict(kind="fresh", mode=m)))
    out.append(("parameters", dict(kind="parameters")))
    if tier == "thorough":
        for m in (0, 1, 2):
            out.append((f"train-{m}-3-3", dict(kind="train", mode=m, b=3, rounds=2, steps=2)))
            out.append((f"train-{m}-1-3", dict(kind="train", mode=m, b=1, rounds=3, steps=1, c=2)))
        out.append(("network-two", dict(kind="network", mode=0, blocks=2, d=4)))
        out.append(("pooled-three", dict(kind="pooled", mode=2, blocks=3, d=8, c=2)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def wrapper(W, next_state, c, **kw):
    cur = fakeca.script(W, next_state, external_channels=c)
    m = W.imp("yuca.wrappers.halting_wrapper")
    return cur, m.HaltingWrapper(ca_fn=fakeca.FakeCA, **kw)


def weights(w):
    return [p for layer in w.layers for p in layer.parameters()] + list(w.final_layer.parameters())


def run_train(W, mode, b, rounds, steps, c=1):
    d, bang = 4, 2
    per = bang + steps + 1          # most states of one round
    outs = {}

    def state(k, grid):
        """the k-th state of the current round"""
        r = sum(1 for e in cur["log"] if e == ("reset",)) - 1
        k = k - cur["first"][r]
        return at(r, k)

    def at(r, k):
        if r not in outs:
            still = [W.bool(f"still{r}.{i}") for i in range(b)]
            alive, made = [], []
            for q in range(per + 2):
                row, st = [], []
                for i in range(b):
                    a = W.bool(f"alive{r}.{q}.{i}") if r < rounds else True
                    a = a if not alive else W.and_(alive[-1][i], a)
                    row.append(a)
                    it = [[[0.0] * d for _ in range(d)] for _ in range(c)]
                    x = W.real(f"x{r}.{i}", 0.4, 0.9) - (0.0 if q % 2 else 1.0) * W.ite(still[i], 0.0, 0.3)
                    it[i % c][(i + 1) % d][i % d] = W.ite(a, x, 0.0)
                    st.append(it)
                alive.append(row)
                made.append(st)
            outs[r] = (alive, made)
        alive, made = outs[r]
        return made[min(k, len(made) - 1)]

    cur, w = wrapper(W, state, c, ca_steps=steps, batch_size=b, dim=d, prediction_mode=mode, num_blocks=2)
    cur["first"] = []
    reset = fakeca.FakeCA.reset

    def marked(self):
        cur["first"].append(len(cur["inputs"]))
        reset(self)
    W_ca = w.ca
    W_ca.reset = lambda: marked(W_ca)
    w.reset()
    w.train_steps = rounds
    w.bigbang_steps = bang
    n = 2 if mode == 2 else 1
    pred = [[[W.real(f"pred{r}.{i}.{j}", 0.05, 0.95) for j in range(n)] for i in range(b)] for r in range(rounds + 1)]
    seen = []

    def forward(g):
        r = len(seen)
        nets = list(w.layers) + [w.final_layer]
        seen.append((W.L(g), [x.training for x in nets], len(cur["inputs"]), len(W.train_log)))
        zero = sum(p.sum() for p in w.final_layer.parameters()) * 0.0
        return W.tensor(pred[min(r, rounds)]) + zero
    w.forward = forward
    act = [W.real(f"a{i}", 0.01, 0.9) for i in range(4)]
    W.seed("torch", 5)
    W.rng_mode = lambda lib, kind, shape, nm: "const"
    w.eval()                     # as the last scoring left it
    start = len(W.train_log)
    drawn = len(W.drawn)
    _, reward, _, _ = w.step(W.nparray(act))
    log = W.train_log[start:]
    W.check_close([e for e in cur["log"] if e[0] == "set_params"][0][1], act, 1e-6, "trained-on-the-rule")
    first = cur["first"]
    W.check(len(first) == rounds + 1 and len(seen) == rounds + 1, "one-batch-per-round", info=f"{len(first)} {len(seen)}")
    if len(first) != rounds + 1 or len(seen) != rounds + 1:
        return
    grids = [cur["inputs"][i] for i in first]
    flat = [tuple(x for it in g for ch in it for row in ch for x in row) for g in grids]
    W.check(len(set(flat)) == len(flat), "fresh-batch-every-round")
    new = {round(float(x), 5) for lib, kind, xs in W.drawn[drawn:] if lib == "torch" and kind == "u" for x in xs}
    for f in flat:
        W.check(all(round(float(x), 5) in new for x in f), "random-batch")
    back = [e for e in log if e[0] == "backward"]
    stp = [e for e in log if e[0] == "step"]
    W.check(len(back) == len(stp) == rounds, "one-step-per-round", info=f"{len(back)} {len(stp)}")
    fresh, ready = False, False
    for e in log:
        if e[0] == "zero":
            fresh = True
        elif e[0] == "backward":
            W.check(fresh, "gradients-cleared")
            fresh, ready = False, True
        else:
            W.check(ready, "step-follows-its-loss")
            W.check({id(p) for p in weights(w)} <= {id(p) for p in e[1]}, "whole-network-trained")
            ready = False
    for r in range(rounds + 1):
        g, modes, asked, _ = seen[r]
        W.check_close(g, at(r, bang - 1), 1e-6, "predicts-from-the-early-state")
        W.check(all(x == (r < rounds) for x in modes), "dropout-only-in-training", info=f"{r} {modes}")
    for r in range(min(rounds, len(back))):
        last = (first[r + 1] if r + 1 < len(first) else len(cur["inputs"])) - first[r] - 1
        end = last - 1               # the last state asked for only shows whether the end state still changes
        W.check(bang - 1 <= end <= bang - 1 + steps, "steps-taken", info=f"{end}")
        alive, made = outs[r]
        if end < bang - 1 + steps:
            for i in range(b):
                W.check(W.not_(alive[end][i]), "stops-early-only-when-empty")
        loss = 0.0
        for i in range(b):
            live = alive[end][i]
            moves = [W.or_(x - y > 1e-3, y - x > 1e-3)
                     for cx, cy in zip(made[end][i], made[end + 1][i]) for rx, ry in zip(cx, cy) for x, y in zip(rx, ry)]
            dyn = False
            for x in moves:
                dyn = W.or_(dyn, x)
            for j, t in enumerate({0: [live], 1: [dyn], 2: [live, dyn]}[mode]):
                q = pred[r][i][j]
                loss = loss - W.ite(t, W.log(q), W.log(1.0 - q)) / (b * n)
        W.check_close(W.num(back[r][1]), loss, 1e-4, "loss-is-the-cross-entropy-with-the-fate")


def run_network(W, mode, blocks, d, c=1):
    """the real network: one prediction in [0,1] per grid (two in mode 2), of that grid alone"""
    cur, w = wrapper(W, lambda k, g: g, c, ca_steps=1, batch_size=2, dim=d, prediction_mode=mode, num_blocks=blocks)
    w.reset()
    w.eval()
    W.check(len(w.layers) == blocks, "blocks")
    g = [[[[0.25 + 0.11 * ((3 * i + j + ch) % 5) for j in range(d)] for i in range(d)] for ch in range(c)] for _ in range(2)]
    g[1][0][0][1] = W.real("x", 0.0, 1.0)
    both = W.L(w.forward(W.tensor(g)))
    n = 2 if mode == 2 else 1
    W.check(len(both) == 2 and all(len(r) == n for r in both), "one-prediction-per-grid", info=f"{len(both)}")
    W.check_range(both, 0.0, 1.0, 1e-6, "prediction-range")
    one = W.L(w.forward(W.tensor(g[:1])))
    W.check_close(one[0], both[0], 1e-5, "of-that-grid-alone")


def run_pooled(W, mode, blocks, d, c=1):
    """the prediction is the mean sigmoid of the last layer over the grid, halved after every block"""
    cur, w = wrapper(W, lambda k, g: g, c, ca_steps=1, batch_size=2, dim=d, prediction_mode=mode, num_blocks=blocks)
    w.reset()
    n = 2 if mode == 2 else 1
    a = [W.real(f"s{k}", -1.0, 1.0) for k in range(blocks)]
    o = [0.3 - 0.2 * k for k in range(blocks)]
    nn = W.torch.nn

    class Affine(nn.Module):
        def __init__(self, s, t):
            super().__init__()
            self.s, self.t = s, t

        def forward(self, x):
            return x * self.s + self.t

    class Last(nn.Module):
        def forward(self, x):
            y = x.sum(dim=1, keepdim=True)
            return y if n == 1 else W.torch.cat([y, 0.5 - y * 2.0], dim=1)
    for k in range(blocks):
        w.layers[k] = Affine(W.tensor([a[k]]), o[k])
    w.final_layer = Last()
    w.eval()
    g = [[[[0.1 + 0.07 * ((3 * i + j + ch + q) % 7) for j in range(d)] for i in range(d)] for ch in range(c)] for q in range(2)]
    g[0][0][1][0] = W.real("x0", 0.0, 1.0)
    g[1][c - 1][d - 1][d - 1] = W.real("x1", 0.0, 1.0)
    out = W.L(w.forward(W.tensor(g)))
    want = []
    for it in g:
        cur_it, s = it, d
        for k in range(blocks):
            nxt = []
            for ch in cur_it:
                y = [[x * a[k] + o[k] for x in row] for row in ch]
                nxt.append([[(y[2 * i][2 * j] + y[2 * i][2 * j + 1] + y[2 * i + 1][2 * j] + y[2 * i + 1][2 * j + 1]) / 4
                             for j in range(s // 2)] for i in range(s // 2)])
            cur_it, s = nxt, s // 2
        y = [[sum(ch[i][j] for ch in cur_it) for j in range(s)] for i in range(s)]
        row = [sum(W.sigmoid(v) for r in y for v in r) / (s * s)]
        if n == 2:
            row.append(sum(W.sigmoid(0.5 - v * 2.0) for r in y for v in r) / (s * s))
        want.append(row)
    W.check_close(out, want, 1e-5, "mean-over-the-pooled-grid")


def run_fresh(W, mode):
    """every reset makes a new network, and it is the new one that is trained"""
    cur, w = wrapper(W, lambda k, g: g, 1, ca_steps=0, batch_size=1, dim=4, prediction_mode=mode, num_blocks=2)
    w.reset()
    one = list(weights(w))
    w.reset()
    two = list(weights(w))
    W.check(not ({id(p) for p in one} & {id(p) for p in two}), "new-network")
    w.train_steps = 1
    w.bigbang_steps = 1
    n = 2 if mode == 2 else 1
    x = W.real("p", 0.1, 0.9)
    w.forward = lambda g: W.tensor([[x] * n]) + sum(p.sum() for p in w.final_layer.parameters()) * 0.0
    start = len(W.train_log)
    w.step(W.nparray([0.1, 0.2, 0.3, 0.4]))
    trained = [e[1] for e in W.train_log[start:] if e[0] == "step"]
    W.check(len(trained) == 1, "one-step")
    for ps in trained:
        W.check({id(p) for p in two} <= {id(p) for p in ps}, "the-new-network-is-trained")


def run_parameters(W):
    """the wrapper's parameter vector is its rule's"""
    fakeca.script(W, lambda k, g: g)
    m = W.imp("yuca.wrappers.halting_wrapper")
    for k, cls in enumerate((m.HaltingWrapper, m.SimpleHaltingWrapper)):
        w = cls(ca_fn=fakeca.FakeCA, ca_steps=1, batch_size=1, dim=4)
        p = [W.real(f"p{k}.{i}", -1.0, 1.0) for i in range(4)]
        w.set_params(W.nparray(p))
        W.check_close(W.L(w.ca.get_params()), p, 1e-7, "rule-gets-it")
        W.check_close(W.L(w.get_params()), p, 1e-7, "reads-back")
        W.check(tuple(w.action_space.shape) == (4,), "action-space")
        s = w.action_space.sample()
        W.check(tuple(s.shape) == (4,), "sample-shape")
