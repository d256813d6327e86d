"""C32: what a search leaves behind (saved rule, logged rules, animations) belongs to the fittest, for every kind of search."""
from . import evo
from .C14 import order

BOUNDS = ("universe, pattern and co-evolution searches of 1-3 generations with 5-16 members whose rewards depend on their rule "
          "and pattern, 1-2 members of the last generation with arbitrary reward (among all others, apart by 1e-4), one or two "
          "seeds; co-evolution also with the real combined agent and automaton, with arbitrary rule parameters")
OUTSIDE = "members of exactly equal fitness; the pictures of an animation (C23)"
ASSUMPTIONS = []


def cases(tier):
    out = []
    for kind in ("universe", "coevo", "pattern"):
        for n, gens, seeds in ((8, 2, [4]), (16, 1, [3]), (8, 2, [3, 5])):
            out.append((f"{kind}-{n}-{gens}-{len(seeds)}", dict(kind="search", what=kind, n=n, gens=gens, seeds=seeds)))
    for kind in ("universe", "coevo", "pattern"):
        out.append((f"early-{kind}", dict(kind="early", what=kind)))
    out.append(("real-coevo", dict(kind="real")))
    out.append(("real-coevo-first", dict(kind="real", who=0)))
    out.append(("configs-universe", dict(kind="configs", what="universe")))
    out.append(("configs-coevo", dict(kind="configs", what="coevo")))
    if tier == "thorough":
        for kind in ("universe", "coevo", "pattern"):
            out.append((f"{kind}-two", dict(kind="search", what=kind, n=8, gens=3, seeds=[4], who=(2, 5))))
            out.append((f"{kind}-24", dict(kind="search", what=kind, n=24, gens=2, seeds=[4])))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


class Both:
    """an agent with a rule (first two parameters, handed to the automaton) and a pattern (the rest)"""

    def __init__(self, **k):
        W = evo.CUR["W"]
        if k.get("params") is not None:
            self.p = k["params"]
        else:
            self.p = W.nparray([0.3, 0.2, 0.6])

    def get_params(self):
        return self.p

    def set_params(self, p):
        self.p = p

    def to_device(self, d):
        pass

    def get_action(self):
        return self.p[1:], self.p[:1]


class PatternOnly(Both):
    def get_action(self):
        return evo.CUR["W"].tensor(evo.CUR["W"].L(self.p))


class Fixed(evo.Env):
    """an environment in which the rule stays and the pattern is scored"""

    def step(self, action):
        W = evo.CUR["W"]
        r = evo.CUR["reward"](W, W.L(action))
        self.log.append((W.L(action), list(self.ca.p), r))
        return 0, W.tensor(r), False, {"active_grid": W.tensor(0.5)}


def launch(W, what, n, gens, seeds, reward):
    """run a whole search; -> (search, saved, animations, generations as (fitness, parameters of the members))"""
    m = W.imp("yuca.cmaes")
    evo.CUR.update(W=W, reward=reward, on_reset=None, start=[0.4, 0.2])
    tag = {"universe": "", "coevo": "coevo_test", "pattern": "pattern_test"}[what]
    kw = dict(population_size=n, generations=gens, seed=list(seeds), replicates=1, dim=4, tag=tag, selection_mode=0)
    if what == "universe":
        a = m.CMAES(env_fn=evo.Env, **kw)
    elif what == "coevo":
        a = m.CMACES(env_fn=Fixed, agent_fn=Both, **kw)
    else:
        a = m.CMAES(env_fn=Fixed, agent_fn=PatternOnly, **kw)
    movies, gen = [], []
    m.save_fig_sequence = lambda grid, ca, *x, **k: movies.append((W.L(grid), list(ca.p), k.get("tag")))

    class Plain(evo.CA):
        def __call__(self, g):
            return g
    a.env.ca.__class__ = Plain
    for nm in ("update_population", "rank_population"):
        def g(fitness, *x, _f=getattr(a, nm), **k):
            gen.append(([W.num(v) for v in fitness], [W.L(y.get_params()) for y in a.population[:n]]))
            movies.append(("ranked", len(gen)))
            return _f(fitness, *x, **k)
        setattr(a, nm, g)
    W.makedirs(W.root + "/logs", exist_ok=True)
    a.search()
    return a, movies, gen


def parts(what, p):
    """(rule, pattern) of a parameter vector"""
    return {"universe": (p, None), "coevo": (p[1:], p[:1]), "pattern": ([0.4, 0.2], p)}[what]


def payer(W, n, gens, seeds, who, lo=-1.0, hi=1.0):
    """rewards in order of evaluation; the members `who` of the last generation get arbitrary ones"""
    state = dict(k=0)
    total = gens * len(seeds)

    def reward(W, action):
        g, i = divmod(state["k"], n)
        state["k"] += 1
        fixed = [0.1 * ((5 * j + 3 * g) % n) - 0.2 for j in range(n)]
        r = fixed[i]
        if i in who and g == total - 1:
            r = W.real(f"r{i}", lo, hi)
            for j in range(n):
                if j not in who:
                    W.assume(abs(fixed[j] - r) >= 1e-4)
            for q in state.get("rs", []):
                W.assume(abs(q - r) >= 1e-4)
            state.setdefault("rs", []).append(r)
        return r
    return reward, state


def run_search(W, what, n, gens, seeds, who=(2,)):
    reward, state = payer(W, n, gens, seeds, who)
    check(W, what, n, gens, seeds, reward, state)


def run_early(W, what):
    """a search that ends early, because everyone does equally well"""
    n = 8
    state = dict(k=0)

    def reward(W, action):
        g, i = divmod(state["k"], n)
        state["k"] += 1
        if g == 7 and i == 3:
            r = W.real("r", 0.5, 0.504)
            for j in range(n):
                W.assume(abs(0.5 + 0.0005 * ((5 * j + g) % n) - r) >= 1e-4)
            return r
        return 0.5 + 0.0005 * ((5 * i + g) % n)
    check(W, what, n, 20, [4], reward, state, took=8)


def check(W, what, n, gens, seeds, reward, state, took=None):
    took = took or gens
    keep = {}

    def counted(W, action):
        if keep.get("off"):          # elite configurations may be made by stepping the environment: not an evaluation
            return 0.0
        return reward(W, action)
    m = W.imp("yuca.cmaes")
    cfg = {c: c.__dict__["get_elite_configs"] for c in (m.CMAES, m.CMACES)}
    steps = []

    def wrap(f):
        def g(self):
            keep["off"] = True
            try:
                r = f(self)
            finally:
                keep["off"] = False
            steps.append(self.env.ca_steps)
            return r
        return g
    for c, f in cfg.items():
        c.get_elite_configs = wrap(f)
    try:
        a, movies, gen = launch(W, what, n, gens, seeds, counted)
    finally:
        for c, f in cfg.items():
            c.get_elite_configs = f
    e = n // 8 + 1
    W.check(len(gen) == took * len(seeds), "generations", info=f"{len(gen)}")
    W.check(steps == [7] * len(gen), "steps-kept", info=str(steps))
    if len(gen) != took * len(seeds):
        return
    for si, s in enumerate(seeds):
        fit, ps = gen[(si + 1) * took - 1]
        o = order(W, fit)[:e]
        best = [ps[i] for i in o]
        sv = [x for x in a.env.ca.saved if x[0].endswith(f"_seed{s}.npy")]
        W.check(len(sv) == 1, "one-rule-saved-per-seed", info=str([x[0] for x in a.env.ca.saved]))
        if len(sv) != 1:
            continue
        W.check_close(sv[0][1], parts(what, best[0])[0], 1e-5, "saved-rule-is-the-fittest's")
        W.check(a.exp_id in sv[0][0] and "ca_configs" in sv[0][0], "saved-among-the-configs")
        # animations after the last ranking of this seed, before the first of the next
        at = [k for k, x in enumerate(movies) if x[0] == "ranked"]
        i0 = at[(si + 1) * took - 1] + 1
        i1 = at[(si + 1) * took] if (si + 1) * took < len(at) else len(movies)
        shown = [x for x in movies[i0:i1] if x[0] != "ranked" and f"gen{took - 1}" in str(x[2])]
        W.check(all(f"seed{s}_" in str(x[2]) for x in shown), "animations-carry-their-seed", info=str([x[2] for x in shown]))
        W.check(len(shown) >= e, "every-elite-is-shown", info=f"{len(shown)}")
        for k, x in enumerate(shown):
            rule, pat = parts(what, best[k % e])
            W.check_close(x[1], rule, 1e-5, "animation-of-an-elite's-rule")
            if what != "universe":
                W.check_close(x[0], pat, 1e-5, "animation-of-an-elite's-pattern")
    lg = W.np_load(f"{W.root}/logs/{a.exp_id}_seed{seeds[-1]}.npy", allow_pickle=True).reshape(1)[0]
    W.check(len(lg["elite_configs"]) == len(gen), "configs-of-every-generation")
    for g, (fit, ps) in enumerate(gen):
        o = order(W, fit)[:e]
        W.check_close([c["rule"] for c in lg["elite_configs"][g]], [parts(what, ps[i])[0] for i in o], 1e-5,
                      "logged-rules-are-the-elites'")
    o = order(W, gen[-1][0])[:e]
    W.check_close(lg["elite_params"][-1], [gen[-1][1][i] for i in o], 1e-5, "logged-parameters-are-the-elites'")


def run_configs(W, what):
    """the elites' configurations, for arbitrary elites"""
    m = W.imp("yuca.cmaes")
    n = 8
    evo.CUR.update(W=W, reward=lambda W, x: 0.0, on_reset=None, start=[0.4, 0.2])
    if what == "coevo":
        a = m.CMACES(env_fn=Fixed, agent_fn=Both, population_size=n, tag="coevo", dim=4)
    else:
        a = m.CMAES(env_fn=evo.Env, population_size=n, tag="", dim=4)
    d = 3 if what == "coevo" else 2
    el = [[W.real(f"e{i}.{k}", 0.05, 0.95) for k in range(d)] for i in range(3)]
    a.elite_params = W.nparray(el)
    for _ in range(2):
        got = a.get_elite_configs()
        W.check_close([c["rule"] for c in got], [parts(what, p)[0] for p in el], 1e-6, "rules-of-the-elites")
        W.check(a.env.ca_steps == 7, "steps-kept")
        W.check_close(a.elite_params, el, 1e-6, "elites-kept")


def run_real(W, who=2):
    """the real combined agent and automaton"""
    m = W.imp("yuca.cmaes")
    cp = W.imp("yuca.cppn")
    gw = W.imp("yuca.wrappers.glider_wrapper")
    cca = W.imp("yuca.ca.continuous").CCA
    n = 5
    W.seed("torch", 1)
    W.seed("np", 1)
    a = m.CMACES(env_fn=gw.GliderWrapper, agent_fn=cp.CPPNPlus, ca_fn=cca, population_size=n, tag="coevo", dim=5,
                 kernel_radius=1, batch_size=1, ca_steps=1)
    a.reset()
    k = len(W.L(a.env.ca.get_params()))
    rules = []
    for i in range(n):
        p = [float(x) for x in W.L(a.population[i].get_params())]
        r = [W.real(f"r{j}", 0.1, 0.4) if i == who else 0.1 + 0.03 * ((i + 2 * j) % 5) for j in range(k)]
        a.population[i].set_params(W.nparray(p[:-k] + r))
        rules.append(r)
    f = [0.1 * ((3 * i) % n) for i in range(n)]
    f[who] = W.real("f", 0.25, 1.0)
    for i in range(n):
        if i != who:
            W.assume(abs(f[i] - f[who]) >= 1e-4)
    saved = []
    a.env.ca.save_config = lambda p: saved.append((p, W.L(a.env.ca.get_params())))
    a.rank_population(f, seed=7)
    W.check(len(saved) == 1 and saved[0][0].endswith("_seed7.npy"), "one-rule-saved")
    o = order(W, f)
    W.check_close(saved[0][1], rules[o[0]], 1e-5, "saved-rule-is-the-fittest's")
    cfgs = a.get_elite_configs()
    W.check(len(cfgs) == n // 8 + 1, "configs-of-the-elites")
    b = cca(kernel_radius=1)
    b.load_config(cfgs[0])
    W.check_close(W.L(b.get_params()), rules[o[0]], 1e-5, "first-config-is-the-fittest's")
