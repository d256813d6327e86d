"""C14: evolution keeps the fittest, refits its distribution to them and saves the best rule."""
from .evo import build, fill

BOUNDS = ("populations of 5..40 members with 2 (3) parameters; 3-5 members with arbitrary fitness in any order among fixed "
          "ones, arbitrary parameters of up to 4 members, arbitrary mean; all three selection modes; up to 8 generations "
          "with a scripted environment")
OUTSIDE = "members of exactly equal fitness (either order is accepted; fitness values differ by at least 1e-4)"
ASSUMPTIONS = ["np.random.multivariate_normal draws from the distribution of the mean and covariance it is given, and "
               "np.random.choice respects its weights (their arguments and results are what is checked)"]

POS = {5: [0, 2, 4], 8: [0, 1, 5], 16: [0, 1, 9], 24: [0, 1, 23], 40: [1, 0, 2]}


def cases(tier):
    out = []
    for n in (5, 8, 16, 24) + ((40,) if tier == "thorough" else ()):
        out.append((f"truncation-{n}", dict(kind="select", n=n, mode=0)))
        out.append((f"final-{n}", dict(kind="select", n=n, mode=0, final=True)))
    for n in (8, 16, 24):
        out.append((f"tournament-{n}", dict(kind="select", n=n, mode=1)))
        out.append((f"proportional-{n}", dict(kind="select", n=n, mode=2)))
        out.append((f"final-mode1-{n}", dict(kind="select", n=n, mode=1, final=True)))
    out.append(("tournament-brackets", dict(kind="select", n=8, mode=1, brackets=True)))
    out.append(("proportional-lots", dict(kind="select", n=8, mode=2, brackets=True)))
    out.append(("twice", dict(kind="twice", n=24)))
    out.append(("twice-8", dict(kind="twice", n=8)))
    for m in (0, 1, 2):
        out.append((f"run-{m}", dict(kind="run", mode=m, gens=2)))
    out.append(("run-seeds", dict(kind="run", mode=0, gens=2, seeds=[3, 5])))
    out.append(("converged", dict(kind="run", mode=0, gens=12, narrow=True)))
    out.append(("converged-last", dict(kind="run", mode=0, gens=8, narrow=True)))
    out.append(("restart", dict(kind="restart", n=16)))
    out.append(("restart-8", dict(kind="restart", n=8)))
    if tier == "thorough":
        for m in (0, 1, 2):
            out.append((f"run-two-{m}", dict(kind="run", mode=m, gens=3, one=False)))
        for n in (9, 17, 32):
            for m in (0, 1, 2):
                out.append((f"more-{n}-{m}", dict(kind="select", n=n, mode=m, d=3, k=5)))
                out.append((f"more-final-{n}-{m}", dict(kind="select", n=n, mode=m, final=True, d=3, k=5)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def fitness(W, n, pos, name="f"):
    """arbitrary fitness for the members `pos`, in any order among themselves and two of the fixed ones"""
    f = [0.001 * i - 0.3 * (i % 3) for i in range(n)]
    for i in pos:
        f[i] = W.real(f"{name}{i}", 0.1, 1.0)
    fixed = [i for i in range(n) if i not in pos]
    f[fixed[len(fixed) // 2]] = 0.5
    for a in range(n):
        for b in pos:
            if a != b and (a not in pos or a < b):
                W.assume(abs(f[a] - f[b]) >= 1e-4)
    return f


def order(W, f):
    """member indices from the fittest down"""
    ix = []
    for i in range(len(f)):
        j = len(ix)
        while j > 0 and W.decided(f[i] > f[ix[j - 1]]):
            j -= 1
        ix.insert(j, i)
    return ix


def mean_cov(W, elites, old):
    e, d = len(elites), len(old)
    mean = [sum(p[k] for p in elites) / e for k in range(d)]
    cov = [[sum((p[i] - old[i]) * (p[j] - old[j]) for p in elites) / e for j in range(d)] for i in range(d)]
    return mean, cov


def expected_elites(W, mode, f, e, n, drawn, calls):
    if mode == 0:
        return order(W, f)[:e]
    if mode == 1:
        ints = [int(x) for lib, kind, xs in drawn if kind == "i" for x in xs]
        W.check(len(ints) == e * e, "brackets-drawn", info=f"{len(ints)}")
        out = []
        for j in range(e):
            best = None
            for i in ints[j * e:(j + 1) * e]:
                if best is None or (i != best and W.decided(f[i] > f[best])):
                    best = i
            out.append(best)
        return out
    ch = [c for c in calls if c[0] == "choice" and c[2] is not None]
    W.check(len(ch) == 1 and len(ch[0][4]) == e and not ch[0][3], "lots-drawn-without-replacement")
    _, items, pw, _, ix = ch[0]
    ranks = sorted(range(n), key=lambda i: -pw[i])
    s = sum(1.0 / (r + 1) ** 2 for r in range(n))
    W.check_close([pw[i] for i in ranks], [1.0 / (r + 1) ** 2 / s for r in range(n)], 1e-6, "lot-weights")
    o = order(W, f)
    return [o[ranks.index(i)] for i in ix]


def run_select(W, n, mode, final=False, d=2, k=None, brackets=False):
    start = [W.real(f"mean{i}", 0.1, 0.9) for i in range(d)]
    a = build(W, n, mode, d, means=start)
    a.reset()
    pos = POS.get(n, [0, 1, 2, n - 1, n // 2])[:k or 4]
    ps = fill(W, a, d, pos)
    old = W.L(a.means)
    W.check_close(old, start, 1e-6, "starting-mean")
    f = fitness(W, n, pos[1:2] if brackets and mode == 2 else pos[:2] if mode == 2 else pos)
    e = n // 8 + 1
    if brackets:
        if mode == 1:
            W.rng_mode = lambda lib, kind, shape, nm: "sym" if kind == "i" and nm.endswith(":1") else "const"
        else:
            W.choice_mode = "sym"
    W.seed("np", 77)
    W.drawn.clear()
    W.calls.clear()
    logged = len(W.rng_log)
    if final:
        a.rank_population(f, seed=3)
    else:
        a.update_population(f)
    W.rng_mode = "const"
    W.choice_mode = "const"
    el = expected_elites(W, 0 if final else mode, f, e, n, W.drawn, W.calls)
    elites = [ps[i] for i in el]
    mean, cov = mean_cov(W, elites, old)
    if mode == 1 and not final:
        W.check(all(lo <= 0 and hi >= n - 1 for _, _, kind, lo, hi in W.rng_log[logged:] if kind == "i"),
                "every-member-can-enter-a-bracket")
    W.check_close(a.elite_params, elites, 1e-6, "elites")
    W.check_close(a.means, mean, 1e-6, "mean")
    W.check_close(a.covar, cov, 1e-6, "covariance")
    if final:
        W.check(len(a.env.ca.saved) == 1, "saves-best-rule")
        W.check_close(a.env.ca.saved[0][1], elites[0], 1e-6, "saved-rule-is-fittest")
        W.check_close([W.L(x.get_params()) for x in a.population[:n]], ps, 1e-6, "population-kept")
        return
    check_next(W, a, n, e, elites, mean, cov)


def check_next(W, a, n, e, elites, mean, cov):
    draws = [c for c in W.calls if c[0] == "mvn"]
    keep = e // 2
    W.check(len(draws) == n - keep, "draws", info=f"{len(draws)}")
    for c in draws:
        W.check_close(c[1], mean, 1e-6, "drawn-from-mean")
        W.check_close(c[2], cov, 1e-6, "drawn-from-covariance")
    got = [W.L(x.get_params()) for x in a.population[:n]]
    W.check_close(got[:keep], elites[:keep], 1e-6, "best-kept")
    W.check_close(got[keep:], [c[3] for c in draws], 1e-6, "rest-drawn")


def run_twice(W, n):
    """two generations, the second selecting among what the first produced"""
    d = 2
    a = build(W, n, 0, d)
    a.reset()
    ps = fill(W, a, d, POS[n][:2])
    e = n // 8 + 1
    for g in range(2):
        pos = POS[n][:3] if g == 0 else [e // 2, 3, n - 1]
        f = fitness(W, n, pos[:3 - g], f"f{g}.")
        old = W.L(a.means)
        W.seed("np", 77 + g)
        W.calls.clear()
        a.update_population(f)
        elites = [ps[i] for i in order(W, f)[:e]]
        mean, cov = mean_cov(W, elites, old)
        W.check_close(a.elite_params, elites, 1e-5, f"elites-{g}")
        check_next(W, a, n, e, elites, mean, cov)
        ps = [W.L(x.get_params()) for x in a.population[:n]]


def run_run(W, mode, gens, seeds=None, narrow=False, one=True):
    """whole runs; the environment pays a different reward for every member of every generation"""
    seeds = seeds or [4]
    n = 8
    count = [0]
    pay = []
    last = len(seeds) * gens - 1

    def reward(W, action):
        g, i = divmod(count[0], n)
        count[0] += 1
        r = (0.5 + 0.0005 * ((5 * i + g) % n)) if narrow and g >= 7 else 0.1 * ((5 * i + 3 * g) % n) - 0.2
        if i in ((4,) if narrow or one else (1, 4)) and (g >= 7 if narrow else g >= last):
            r = W.real(f"r{g}.{i}", *((0.5, 0.5035) if narrow else (-1.0, 1.0)))
            for j in range(n):
                if j != i and (narrow or one or j not in (1, 4)):
                    q = (0.5 + 0.0005 * ((5 * j + g) % n)) if narrow else 0.1 * ((5 * j + 3 * g) % n) - 0.2
                    W.assume(abs(q - r) >= 1e-4)
            if i == 4 and not narrow and not one:
                W.assume(abs(r - pay[-3]) >= 1e-4)
        pay.append(r)
        return r

    a = build(W, n, mode, 2, reward=reward, seed=list(seeds), replicates=1, generations=gens)
    # elite configurations are made by stepping the environment: those steps are not paid
    mk = a.get_elite_configs

    def configs():
        k, m = count[0], len(pay)
        r = mk()
        count[0] = k
        del pay[m:]
        return r
    a.get_elite_configs = configs
    a.env.log = []
    W.makedirs(W.root + "/logs", exist_ok=True)
    a.search()
    total = 8 if narrow else gens
    W.check(len(pay) == n * total * len(seeds), "every-member-evaluated-once", info=f"{len(pay)}")
    acts = []
    e = n // 8 + 1
    steps = list(a.env.log)
    k = 0
    for s in seeds:
        for g in range(total):
            acts.append([x[0] for x in steps[k:k + n]])
            k += n + e
    W.check(len(a.env.ca.saved) >= len(seeds), "rule-saved")
    for si in range(len(seeds)):
        gi = (si + 1) * total - 1
        f = pay[gi * n:(gi + 1) * n]
        o = order(W, f)
        sv = [x for x in a.env.ca.saved if f"seed{seeds[si]}" in x[0]]
        W.check(len(sv) >= 1, "rule-saved-for-seed")
        W.check_close(sv[-1][1], acts[gi][o[0]], 1e-5, "saved-rule-is-fittest-of-last-generation")
    W.check_close(a.elite_params, [acts[-1][i] for i in o[:e]], 1e-5, "final-elites")
    lg = W.np_load(f"{W.root}/logs/{a.exp_id}_seed{seeds[-1]}.npy", allow_pickle=True).reshape(1)[0]
    for si in range(len(seeds)):
        for g in range(total):
            gi = si * total + g
            f = pay[gi * n:(gi + 1) * n]
            m = sum(f) / n
            W.check_close([lg["mean_fitness"][gi], lg["max_fitness"][gi], lg["min_fitness"][gi]],
                          [m, W.max_all(f), W.min_all(f)], 1e-4, "logged-fitness")
            sd = W.num(lg["std_dev_fitness"][gi])
            W.check_close(sd * sd, sum((x - m) * (x - m) for x in f) / n, 1e-4, "logged-deviation")
            el = lg["elite_params"][gi]
            W.check_close([c["rule"] for c in lg["elite_configs"][gi]], W.L(el), 1e-5, "logged-configs-are-elites")
            if mode == 0 or g == total - 1:
                W.check_close(el, [acts[gi][i] for i in order(W, f)[:e]], 1e-5, "logged-elites")


def run_restart(W, n):
    """a run started from a log continues from the elites of its last generation"""
    d, e = 2, n // 8 + 1
    el = [[W.real(f"e{i}.{k}", 0.1, 0.9) for k in range(d)] for i in range(e)]
    olds = [[0.2, 0.3]] * e
    p = W.scratch("c14") + "/log.npy"
    W.np_save(p, {"elite_params": [W.nparray(olds), W.nparray(el)]})
    a = build(W, n, 0, d, input_filepath=p)
    W.seed("np", 5)
    W.calls.clear()
    a.reset()
    mean = [sum(x[k] for x in el) / e for k in range(d)]
    W.check_close(a.means, mean, 1e-6, "restart-mean")
    W.check_close([W.L(x.get_params()) for x in a.population[:e]], el, 1e-6, "restart-elites")
    W.check(len(a.population) == n, "restart-population")
    draws = [c for c in W.calls if c[0] == "mvn"]
    W.check(len(draws) == n - e, "restart-draws")
    for c in draws:
        W.check_close(c[1], mean, 1e-6, "restart-drawn-from-mean")
    # a log of other parameters does not apply
    b = build(W, n, 0, d + 1, input_filepath=p)
    b.reset()
    W.check_close(b.means, [0.4, 0.2, 0.3], 1e-6, "other-log-ignored")
