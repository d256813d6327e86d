"""C29: fitting a predictor takes one step per batch on its mean squared error, and keeps a true record of it."""
from . import C31

BOUNDS = ("predictors of 1-2 layer pairs (radius 1, 1-2 hidden channels) fitted for 1-7 epochs on 1-3 batches of 1-2 samples of "
          "2x2 cells with arbitrary values; an optimizer step changes two of the weights arbitrarily (up to 3 steps) or as scripted")
OUTSIDE = "gradients (an optimizer step is an arbitrary change of the weights), data loaders, wall times"
ASSUMPTIONS = ["an optimizer step is an arbitrary in-place change of the parameters it was given"]


def cases(tier):
    out = [("one", dict(train=[1], val=[1], epochs=1)),
           ("batches", dict(train=[1, 2], val=[2, 1], epochs=2, every=1)),
           ("every-2", dict(train=[1], val=[1], epochs=5, every=2)),
           ("every-3", dict(train=[1], val=[1], epochs=4, every=3)),
           ("default-every", dict(train=[1], val=[1], epochs=3, every=None)),
           ("last-only", dict(train=[2], val=[1, 1], epochs=3, every=10)),
           ("two-layers", dict(train=[1, 1], val=[1], epochs=1, n=2)),
           ("again", dict(train=[1], val=[1], epochs=1, twice=True)),
           ("dropout", dict(kind="dropout"))]
    if tier == "thorough":
        out += [("long", dict(train=[1, 1, 1], val=[1], epochs=7, every=3)),
                ("many", dict(train=[2, 1, 2], val=[2, 1, 1], epochs=2, every=1)),
                ("default-every-21", dict(train=[1], val=[1], epochs=21, every=None)),
                ("three-layers", dict(train=[1, 1], val=[1], epochs=2, n=3))]
    return out


def run(W, kind="fit", **p):
    globals()["run_" + kind](W, **p)


def data(W, split, name, syms=1):
    """batches of 2x2 samples; the first sample of each of the first batches has an arbitrary input and target cell"""
    out, k = [], 0
    for n in split:
        bx, by = [], []
        for q in range(n):
            bx.append([[[round(0.1 * (i + 2 * j + k % 3), 2) for j in range(2)] for i in range(2)]])
            by.append([[[round(0.2 * (i + j) + 0.1 * (k % 2), 2) for j in range(2)] for i in range(2)]])
            if q == 0 and k < syms:
                bx[q][0][0][1] = W.real(f"{name}x{k}", 0.0, 1.0)
                by[q][0][1][0] = W.real(f"{name}y{k}", 0.0, 1.0)
            k += 1
        out.append((bx, by))
    return out


def mean(W, L, batch):
    """mean squared error over all cells of a batch"""
    t, n = sq(W, L, batch)
    return t / n


def sq(W, L, batch):
    t, n = 0.0, 0
    for x, y in zip(*batch):
        f = C31.forward(W, L, x, 1)
        for c in range(len(y)):
            for i in range(2):
                for j in range(2):
                    d = f[c][i][j] - y[c][i][j]
                    t = t + d * d
                    n += 1
    return t, n


def current(W, m, n, names):
    sd = m.state_dict()
    return [[W.L(sd[names[4 * i + t]].detach()) for t in range(4)] for i in range(n)]


class Loader:
    """a data set that can be gone through any number of times"""

    def __init__(self, W, batches):
        self.b = [(W.tensor(x), W.tensor(y)) for x, y in batches]

    def __iter__(self):
        return iter(self.b)

    def __len__(self):
        return len(self.b)


def run_fit(W, train, val, epochs, every=1, n=1, twice=False):
    m = C31.predictor(W, n, 1, 1, 1, dropout=0.0, tag="unit")
    names = [x for x, _ in m.named_parameters()]
    C31.weights(W, m, n, 1, 1, 1, 0)
    for d in ("logs", "models"):
        W.makedirs(f"{W.root}/{d}", exist_ok=True)
    before = {d: set(W.listdir(f"{W.root}/{d}")) for d in ("logs", "models")}
    tr, va = data(W, train, "t"), data(W, val, "v")
    Ls = [current(W, m, n, names)]
    cnt = [0]

    def step(params):
        """weights after a step: the second bias (and one weight) of the last layer pair are arbitrary for the first steps"""
        k = cnt[0]
        cnt[0] += 1
        sd = dict(m.state_dict())
        b = sd[names[4 * n - 1]]
        w = sd[names[4 * n - 2]]
        b.fill_(W.real(f"b{k}", -1.0, 1.0) if k < 2 else round(0.3 - 0.17 * (k % 5), 3))
        w.fill_(W.real(f"w{k}", -1.0, 1.0) if k < 1 else round(0.2 + 0.11 * (k % 4), 3))
        Ls.append(current(W, m, n, names))
    W.opt_step = step
    reps = 2 if twice else 1
    kw = {} if every is None else {"disp_every": every}
    for _ in range(reps):
        start = len(W.train_log)
        first = len(Ls) - 1
        m.fit(Loader(W, tr), val_dataloader=Loader(W, va), max_epochs=epochs, **kw)
    log = W.train_log[start:]
    # one step per batch of every epoch, on the mean squared error of the batch, with gradients of that batch only
    back = [e for e in log if e[0] == "backward"]
    steps = [e for e in log if e[0] == "step"]
    N = epochs * len(tr)
    W.check(len(back) == len(steps) == N, "one-step-per-batch", info=f"{len(back)} {len(steps)}")
    fresh, ready = False, False
    for e in log:
        if e[0] == "zero":
            fresh = True
        elif e[0] == "backward":
            W.check(fresh, "gradients-cleared")
            fresh, ready = False, True
        else:
            W.check(ready, "step-follows-its-loss")
            W.check({id(p) for p in e[1]} == {id(p) for p in m.parameters()}, "all-weights-trained")
            ready = False
    losses = [mean(W, Ls[first + k], tr[k % len(tr)]) for k in range(N)]
    for k, e in enumerate(back[:N]):
        W.check_close(W.num(e[1]), losses[k], 1e-3, "loss-of-the-batch")
    # the record
    if every is None:
        every = max(1, epochs // 10)
    want_epochs = [e for e in range(epochs) if e % every == 0 or e == epochs - 1]
    new = {d: sorted(set(W.listdir(f"{W.root}/{d}")) - before[d]) for d in before}
    W.check(new["logs"] == [m.exp_tag + ".npy"], "log-saved", info=str(new))
    W.check(new["models"] == [m.exp_tag + "_model.pt"], "model-saved", info=str(new))
    if new["logs"] != [m.exp_tag + ".npy"] or new["models"] != [m.exp_tag + "_model.pt"]:
        return
    rec = W.np_load(f"{W.root}/logs/{m.exp_tag}.npy", allow_pickle=True).reshape(1)[0]
    W.check_eq([int(e) for e in rec["epochs"]], want_epochs, "epochs-recorded")
    smooth, sm = None, []
    for l in losses:
        smooth = l if smooth is None else 0.99 * smooth + 0.01 * l
        sm.append(smooth)
    got = [W.num(v) for v in rec["train_smooth_loss"]]
    W.check(len(got) == N, "smooth-loss-per-batch", info=str(len(got)))
    W.check_close(got[:N], sm[:len(got)], 1e-3, "smooth-loss")
    vl = []
    for e in want_epochs:
        L = Ls[first + (e + 1) * len(tr)]
        t = 0.0
        for b in va:
            t = t + sq(W, L, b)[0]
        vl.append(t / sum(val))
    W.check_close([W.num(v) for v in rec["val_loss"]], vl, 2e-3, "validation-loss")
    W.check(len(rec["wall_time_t"]) == N and len(rec["wall_time_v"]) == len(want_epochs), "a-time-for-each")
    # the weights saved are the last ones
    sd = W.torch.load(f"{W.root}/models/{m.exp_tag}_model.pt")
    b = C31.predictor(W, n, 1, 1, 1, dropout=0.0, seed=3)
    b.load_state_dict(sd)
    W.check_close(current(W, b, n, names), Ls[-1], 1e-5, "last-weights-saved")


def run_dropout(W):
    """dropout acts on the training batches (here it drops all hidden channels), never on the validation set"""
    m = C31.predictor(W, 1, 1, 2, 1, dropout=0.5, tag="unit")
    names = [x for x, _ in m.named_parameters()]
    C31.weights(W, m, 1, 1, 2, 1, 0)
    for d in ("logs", "models"):
        W.makedirs(f"{W.root}/{d}", exist_ok=True)
    tr, va = data(W, [1], "t"), data(W, [1, 1], "v")
    W.rng_mode = lambda lib, kind, shape, nm: 0.3 if len(shape) == 4 else "const"
    m.eval()
    m.fit(Loader(W, tr), val_dataloader=Loader(W, va), max_epochs=3, disp_every=1)
    L = current(W, m, 1, names)
    dropped = [[L[0][0], L[0][1], [[[[0.0]] for _ in o] for o in L[0][2]], L[0][3]]]
    for e in [e for e in W.train_log if e[0] == "backward"]:
        W.check_close(W.num(e[1]), mean(W, dropped, tr[0]), 1e-3, "dropout-in-training")
    rec = W.np_load(f"{W.root}/logs/{m.exp_tag}.npy", allow_pickle=True).reshape(1)[0]
    want = (sq(W, L, va[0])[0] + sq(W, L, va[1])[0]) / 2
    W.check_close([W.num(v) for v in rec["val_loss"]], [want] * 3, 2e-3, "no-dropout-in-validation")
