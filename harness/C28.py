"""C28: the network saved for a cloned rule is the best one measured, trained on that rule's neighborhoods."""
from . import common

BOUNDS = ("1-3 iterations of 1-3 training steps on the code's own 64x64 grids (uniform states), networks of 1-5 hidden channels; what "
          "an optimizer step does to one weight of the last layer is arbitrary (two values per iteration), so the measured errors come "
          "in every order; 1-2 rules with kernels of radius 1-2, error thresholds that are met or not")
OUTSIDE = "gradients (an optimizer step is an arbitrary change of the weights), dropout that actually drops, the printed progress"
ASSUMPTIONS = ["an optimizer step is an arbitrary in-place change of the parameters it was given"]


def cases(tier):
    out = [("one-step", dict(iters=1, steps=1)),
           ("steps", dict(iters=1, steps=3)),
           ("iterations", dict(iters=2, steps=2)),
           ("two-rules", dict(iters=1, steps=2, rules=("a", "b"))),
           ("threshold-any", dict(iters=1, steps=3, thr="any")),
           ("growing", dict(iters=3, steps=1, hidden=4, most=5)),
           ("reported", dict(iters=1, steps=3, verbose=True)),
           ("kernel", dict(kind="kernel", rule="a")),
           ("kernel-2", dict(kind="kernel", rule="b"))]
    if tier == "thorough":
        out += [("threshold", dict(iters=2, steps=3, thr=0.4)), ("more", dict(iters=2, steps=3)), ("iterations-3", dict(iters=3, steps=2)),
                ("two-rules-more", dict(iters=2, steps=2, rules=("b", "a"))),
                ("two-rules-threshold", dict(iters=2, steps=2, rules=("b", "a"), thr="any"))]
    return out


RULES = {"a": dict(kern="gauss", r=1, gen="gauss", per="mix2"), "b": dict(kern="mix", r=2, gen="gauss0", per="gauss")}
U = 0.75          # all cells of all states


def rule(W, name):
    """a small rule among the bundled configurations"""
    c = RULES[name]
    ca = common.make(W, "CCA", **c)
    W.np_save(f"{W.root}/ca_configs/mini_{name}.npy", ca.make_config())
    return ca


def run(W, kind="clone", **p):
    globals()["run_" + kind](W, **p)


def clone(W, rules, hidden=1, most=2048, **kw):
    """run the cloning; the weights of each measurement are recorded"""
    m = W.imp("yuca.clone")
    W.makedirs(W.root + "/logs", exist_ok=True)
    nets, seen = [], []
    real = m.NCA

    class NCA(real):
        def __init__(self, **k):
            super().__init__(**k)
            nets.append(self)

        def update_helper(self, grid):
            if self in nets:
                seen.append((nets.index(self), [W.L(p.detach()) for p in self.weights_layer.parameters()]))
            return super().update_helper(grid)
    m.NCA = NCA
    W.rng_mode = lambda lib, kind, shape, nm: U if len(shape) == 4 and shape[-1] == 64 else "const"
    try:
        m.clone_from_ca(ca_config=[f"mini_{r}.npy" for r in rules], batch_size=1, hidden_channels=hidden,
                        max_hidden_channels=most, **kw)
    finally:
        m.NCA = real
    return nets, seen


def error(W, ca, weights, net):
    """mean relative error of these weights on the uniform states"""
    x = W.tensor([[[[U] * 5] * 5]])
    t = W.num(ca.update_helper(x))
    old = [p.detach().clone() for p in net.weights_layer.parameters()]
    put(W, net, weights)
    y = output(W, net, x)
    put(W, net, [W.L(o) for o in old])
    return abs_(W, y - t) / (abs_(W, t) + 1e-9)


def output(W, net, x):
    """the network's update of a uniform state, from its weights; dropout (which drops nothing here) scales as it does in training"""
    h = [W.num(net.id_conv(x)), W.num(net.neighborhood_conv(x))]
    ws = [W.L(p.detach()) for p in net.weights_layer.parameters()]
    lin = [w for w in ws if isinstance(w[0], list)]
    gau = [w[0] for w in ws if not isinstance(w[0], list)]
    for k, w in enumerate(lin):
        h = [sum(w[o][i][0][0] * h[i] for i in range(len(h))) for o in range(len(w))]
        if k < 2:
            mu, sigma = gau[2 * k], gau[2 * k + 1]
            h = [W.exp(-(((v - mu) / (sigma + 1e-9)) ** 2) / 2) for v in h]
        if k == 0:
            h = [v / 0.9 for v in h]
    return W.tanh(h[0])


def abs_(W, v):
    return W.max(v, -v)


def put(W, net, weights):
    with W.torch.no_grad():
        for p, v in zip(net.weights_layer.parameters(), weights):
            p.copy_(W.tensor(v))


def run_clone(W, iters, steps, rules=("a",), thr=1e-7, hidden=1, most=2048, verbose=False):
    cas = {r: rule(W, r) for r in rules}
    n = [0]
    budget = [0]

    def step(params):
        """an arbitrary change of one weight of the last layer (the first two of each iteration are arbitrary)"""
        k = n[0]
        n[0] += 1
        v = W.real(f"w{k}", 0.1, 2.0) if k < 4 else 0.1 + ((5 * k) % 17) / 9.0
        w = W.L(params[-1].detach())
        w[0][0][0][0] = v
        params[-1].copy_(W.tensor(w))
    W.opt_step = step
    if thr == "any":
        thr = W.real("thr", 0.05, 3.0)
    nets, seen = clone(W, rules, hidden, most, max_iterations=iters, max_steps=steps, error_threshold=thr,
                       save_name="mini_clone_ca_config.pt", verbose=verbose)
    W.check(len(nets) == iters * len(rules), "iterations", info=f"{len(nets)}")
    # each step trains all weights of the network measured, on its error, with the gradients of that error only
    back, fresh, ready = [], False, False
    for e in W.train_log:
        if e[0] == "zero":
            fresh = True
        elif e[0] == "backward":
            W.check(fresh, "gradients-cleared")
            fresh, ready = False, True
            back.append(e[1])
        else:
            W.check(ready, "step-follows-its-loss")
            k = seen[len(back) - 1][0] if 0 < len(back) <= len(seen) else 0
            W.check({id(q) for q in nets[k].weights_layer.parameters()} <= {id(q) for q in e[1]}, "all-weights-trained")
            ready = False
    W.check(len(back) == len(seen), "one-step-per-measurement", info=f"{len(back)} {len(seen)}")
    files = sorted(f for f in W.listdir(W.root + "/logs") if f.startswith("mini_clone"))
    W.check(files == sorted(f"mini_clone_mini_{r}.pt" for r in rules), "one-file-per-rule", info=str(files))
    for q, r in enumerate(rules):
        path = f"{W.root}/logs/mini_clone_mini_{r}.pt"
        if not W.exists(path):
            continue
        sd = W.torch.load(path)
        got = [W.L(sd[k].detach()) for k in sd if k.startswith("weights_layer")]
        mine = [(i, ws) for i, ws in seen if q * iters <= i < (q + 1) * iters]
        errs = []
        for i in range(q * iters, (q + 1) * iters):
            es = [error(W, cas[r], ws, nets[i]) for j, ws in mine if j == i]
            W.check(1 <= len(es) <= steps, "steps-per-iteration", info=str(len(es)))
            for e in es[:-1]:
                W.check_le(thr, e, 1e-4, "ends-below-threshold")
            if len(es) < steps:
                W.check_le(es[-1], thr, 1e-4, "ends-only-below-threshold")
            errs += es
        for k, e in zip([k for k, (i, _) in enumerate(seen) if q * iters <= i < (q + 1) * iters], errs):
            if k < len(back):
                W.check_close(W.num(back[k]), e, 1e-3, "trained-on-its-error")
        # the saved weights are among those measured, and none measured had a smaller error
        best = None
        for (i, ws), e in zip(mine, errs):
            if [len(w) for w in ws] != [len(w) for w in got]:
                continue
            same = W.and_(*[close(W, a, b) for a, b in zip(flat(ws), flat(got))])
            best = same if best is None else W.or_(best, same)
        W.check(best if best is not None else False, "saved-one-was-measured")
        net = next(nets[i] for i, ws in mine if [len(w) for w in ws] == [len(w) for w in got])
        eg = error(W, cas[r], got, net)
        for e in errs:
            W.check_le(eg, e, 1e-3, "saved-one-is-best")


def flat(ws):
    from engine.wbase import flatten
    return [x for w in ws for x in flatten(w)]


def close(W, a, b):
    return W.and_(a - b <= 1e-6, b - a <= 1e-6)


def run_kernel(W, rule):
    """the saved network, loaded into a new automaton, sees the neighborhoods of the rule that was cloned"""
    ca = globals()["rule"](W, rule)
    r = RULES[rule]["r"]
    W.opt_step = None
    nets, seen = clone(W, (rule,), 2, 2, max_iterations=1, max_steps=1, save_name="mini_kernel.pt")
    x = W.rt("x", (1, 1, 5, 5), sym=(0, 6, 13))
    net = W.imp("yuca.ca.neural").NCA(hidden_channels=2, kernel_radius=r)
    net.load_state_dict(W.torch.load(W.root + "/logs/mini_kernel.pt"))
    for q, lb in ((nets[0], "trained-on-its-neighborhoods"), (net, "saved-with-its-neighborhoods")):
        W.check_close(W.L(q.neighborhood_conv(x)), W.L(ca.neighborhood_conv(x)), 1e-4, lb)
        W.check_close(W.L(q.id_conv(x)), W.L(x), 1e-5, lb + "-identity")
