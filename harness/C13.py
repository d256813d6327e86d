"""C13: the adaptive automaton takes the largest admissible trial step whose local error is acceptable."""
from . import spec
from .common import CLASSES, cls, make, make_multi, model, model_multi, off_threshold, spots

BOUNDS = ("one to three steps; arbitrary error threshold in [1e-4,2] with up to 16 trial steps, or one to three arbitrary cells "
          "with up to 4 trial steps; arbitrary previous step in [0.0001,2] and step limits; 3x3..4x4 grids, 1 and 4 channels")
OUTSIDE = "error estimates within 0.2% of the threshold (float comparison)"
ASSUMPTIONS = []
OPTS = {"max_paths": 400}


def cases(tier):
    out = [("thr", dict(kind="thr")), ("thr-steps", dict(kind="thr", steps=2, min_dt=0.2)), ("thr-4", dict(kind="thr", ext=4)),
           ("thr-batch", dict(kind="thr", batch=2)), ("thr-limits", dict(kind="thr", prev=0.2, max_dt=0.35, min_dt=0.05)),
           ("thr-dark", dict(kind="thr", dark=True)), ("thr-prev", dict(kind="thr", prev=0.05, min_dt=0.03))]
    for i in range(3):
        out.append((f"cell-{i}", dict(kind="cell", pos=i * 4)))
    out += [("exact", dict(kind="exact")), ("below", dict(kind="below")), ("limits", dict(kind="limits")),
            ("never", dict(kind="never")), ("still", dict(kind="still")), ("still-4", dict(kind="still", ext=4)), ("memory", dict(kind="memory"))]
    if tier == "thorough":
        out += [("thr-3", dict(kind="thr", steps=3, min_dt=0.2)), ("thr-4-2", dict(kind="thr", ext=4, steps=2, min_dt=0.2)),
                ("thr-fine", dict(kind="thr", min_dt=0.002)), ("cell-fine", dict(kind="cell", pos=2, min_dt=0.15)),
                ("cell-two", dict(kind="cell", pos=1, n=2))]
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def pair(W, ext=1, fns=("poly", "gauss0"), **kw):
    if ext == 1:
        return make(W, "CODE", fns[0], fns[1], "gauss", 1, 0.3, kwargs=kw), model(fns[0], fns[1], "gauss", 1, 0.3)
    return make_multi(W, ext, ext, 1, 0.4, klass="CODE", kwargs=kw), model_multi(ext, ext, 1, 0.4)


def step(W, m, u, dt):
    m.dt = dt
    return m.step(W, u)


def error(W, m, u, c):
    """largest relative difference between one step of size c and two of half the size, over cells that are alive after"""
    big = step(W, m, u, c)
    small = step(W, m, step(W, m, u, c * 0.5), c * 0.5)
    es = []
    for b in range(len(u)):
        for ch in range(len(u[0])):
            for i in range(len(u[0][0])):
                for j in range(len(u[0][0][0])):
                    s, g = small[b][ch][i][j], big[b][ch][i][j]
                    d = abs(g - s)
                    es.append(W.ite(W.and_(s > 0.0, d > 0.0), W.div(d, W.max(s, 1e-30)), 0.0))
    return W.max_all(es)


def candidates(prev, max_dt, min_dt):
    c = max(min(prev * 2, max_dt), min_dt)
    out = []
    while c >= min_dt:
        out.append(c)
        c *= 0.75
    return out


def judge(W, ca, m, u, thr, cs, min_dt, tag, t0, rel=2e-3):
    """one step of the automaton against the rule; returns the step size it took"""
    out = ca(W.tensor(u))
    d = W.num(ca.get_dt())
    ok = [i for i, c in enumerate(cs) if abs(c - d) <= 1e-6]
    fallback = abs(d - min_dt) <= 1e-6
    W.check(bool(ok) or fallback, f"admissible-step:{tag}", info=f"{d} not among {cs} / {min_dt}")
    n = ok[0] if ok else len(cs)
    for c in cs[:n]:
        W.check(error(W, m, u, c) >= thr * (1 - rel), f"larger-step-rejected:{tag}")
    if ok and not (fallback and abs(cs[n] - min_dt) <= 1e-6):
        W.check(error(W, m, u, cs[n]) <= thr * (1 + rel), f"chosen-step-accurate:{tag}")
    W.check_close(out, step(W, m, u, d), 1e-3, f"step-uses-chosen-dt:{tag}")
    t = W.L(ca.t_count)
    W.check_close([t], [t0 + d], 1e-5, f"clock:{tag}")
    return d, out


def state(W, shape, tag="u", dark=False):
    u = W.field(tag, shape, 0.0 if dark else 0.05, 1.0, [])
    if dark:                      # many empty cells: no relative error there
        u = [[[[0.0 if (i + 2 * j) % 3 else x for j, x in enumerate(r)] for i, r in enumerate(c)] for c in b] for b in u]
    return u


def run_thr(W, steps=1, ext=1, batch=1, prev=0.3, max_dt=0.5, min_dt=0.01, dark=False):
    thr = W.real("thr", 1e-4, 2.0)
    ca, m = pair(W, ext, prev_dt=prev, max_dt=max_dt, min_dt=min_dt, error_threshold=thr)
    t = 0.0
    for s in range(steps):
        u = state(W, (batch, ext, 3, 3), f"u{s}", dark)
        cs = candidates(prev, max_dt, min_dt)
        d, _ = judge(W, ca, m, u, thr, cs, min_dt, s, t)
        prev, t = d, t + d


def run_cell(W, pos, n=1, min_dt=0.25):
    """a rule that is linear in the cell, so that the local error is a rational function of the arbitrary cells"""
    ca, m = pair(W, 1, prev_dt=0.3, max_dt=0.5, min_dt=min_dt, error_threshold=0.02)
    linear(W, ca, m, 0.5, -0.9)
    u = [[[[0.36] * 3 for _ in range(3)]]]          # close to where the rule is stationary
    for k in range(n):
        u[0][0][(pos + k) // 3][(pos + k) % 3] = W.real(f"u:{k}", 0.05, 1.0)
    judge(W, ca, m, u, 0.02, candidates(0.3, 0.5, min_dt), min_dt, 0, 0.0)


def linear(W, ca, m, g, p):
    ca.genesis_fns, ca.persistence_fns = [], []
    m.gens = [{"name": "Polynomial", "coefficients": [g]}]
    m.pers = [{"name": "Polynomial", "coefficients": [p]}]
    ca.add_genesis_fn(dict(m.gens[0]))
    ca.add_persistence_fn(dict(m.pers[0]))
    ca.include_parameters()
    ca.no_grad()


def const(W, ca, v):
    ca.genesis_fns, ca.persistence_fns = [], []
    for add in (ca.add_genesis_fn, ca.add_persistence_fn):
        add({"name": "Polynomial", "coefficients": [v]})
    ca.include_parameters()
    ca.no_grad()


def run_exact(W):
    """a rule whose step is exact in dt: every trial is accurate, so the first is taken: twice the previous, within limits"""
    prev = W.real("prev", 1e-4, 2.0)
    ca, _ = pair(W, 1, prev_dt=prev, max_dt=0.5, min_dt=0.01, error_threshold=1e-2)
    const(W, ca, 0.1)
    u = [[[[0.3] * 3] * 3]]
    out = ca(W.tensor(u))
    d = W.clamp(2 * prev, 0.01, 0.5)
    W.check_close([ca.get_dt()], [d], 1e-5, "doubles-up-to-limit")
    W.check_close(out, spec.bmap(lambda x: x + 0.1 * d, u), 1e-4, "step")
    W.check_close([W.L(ca.t_count)], [d], 1e-5, "clock")


def run_below(W):
    """a previous step below the lower limit still gives a step of at least the lower limit"""
    prev = W.real("prev", 1e-4, 0.0049)
    ca, m = pair(W, 1, prev_dt=prev, max_dt=0.5, min_dt=0.01)
    u = state(W, (1, 1, 3, 3))
    out = ca(W.tensor(u))
    W.check_close([ca.get_dt()], [0.01], 1e-6, "lower-limit")
    W.check_close(out, step(W, m, u, 0.01), 1e-3, "step")


def run_limits(W):
    """the step lies between the limits, whatever they are"""
    lo, hi = W.real("lo", 0.15, 0.3), W.real("hi", 0.3, 0.4)
    ca, m = pair(W, 1, prev_dt=0.3, max_dt=hi, min_dt=lo, error_threshold=0.02)
    linear(W, ca, m, 0.5, -0.9)
    for s in range(2):
        ca(W.tensor([[[[0.2 + 0.3 * s] * 3, [0.6] * 3, [0.3] * 3]]]))
        W.check_le(lo, ca.get_dt(), 1e-6, f"above-min:{s}")
        W.check_le(ca.get_dt(), hi, 1e-6, f"below-max:{s}")


def run_never(W):
    """no trial is accurate enough: the lower limit is used"""
    lo = W.real("lo", 0.1, 0.3)
    ca, m = pair(W, 1, prev_dt=0.3, max_dt=0.5, min_dt=lo, error_threshold=1e-7)
    u = state(W, (1, 1, 3, 3))
    out = ca(W.tensor(u))
    W.check_close([ca.get_dt()], [lo], 1e-6, "lower-limit")
    W.check_close(out, step(W, m, u, lo), 1e-3, "step")
    W.check_close([W.L(ca.t_count)], [lo], 1e-5, "clock")


    # a state without change accepts its first trial: twice the lower limit just used
    ca(W.tensor(STILL))
    W.check_close([ca.get_dt()], [W.clamp(2 * lo, lo, 0.5)], 1e-6, "after-fallback")


STILL = [[[[0.0] * 4] * 3]]


def run_still(W, ext=1):
    """an empty grid that stays empty is predicted exactly by every trial, so the first is taken, again and again"""
    hi, thr = W.real("hi", 0.3, 3.0), W.real("thr", 1e-9, 1.0)
    ca, m = pair(W, ext, prev_dt=0.2, max_dt=hi, min_dt=0.01, error_threshold=thr)
    d = 0.2
    for s in range(3):
        out = ca(W.tensor([STILL[0] * ext] * 2))
        d = W.min(2 * d, hi)
        W.check_close([ca.get_dt()], [d], 1e-5, f"first-trial:{s}")
        W.check_close(out, [STILL[0] * ext] * 2, 1e-6, f"stays-empty:{s}")


def run_memory(W):
    """the next step starts from twice the last one, for every sequence of accepted steps"""
    prev = W.real("prev", 0.02, 0.2)
    ca, _ = pair(W, 1, prev_dt=prev, max_dt=0.5, min_dt=0.01, error_threshold=1e-2)
    const(W, ca, 0.05)
    t, d = 0.0, prev
    for s in range(3):
        ca(W.tensor([[[[0.3] * 3] * 3]]))
        d = W.min(2 * d, 0.5)
        t = t + d
        W.check_close([ca.get_dt()], [d], 1e-5, f"doubled:{s}")
        W.check_close([W.L(ca.t_count)], [t], 1e-5, f"clock:{s}")
    ca.reset()
    W.check_close([W.L(ca.t_count)], [0.0], 1e-9, "reset")
    ca(W.tensor([[[[0.3] * 3] * 3]]))
    W.check_close([ca.get_dt()], [W.min(2 * prev, 0.5)], 1e-5, "starts-over-after-reset")
