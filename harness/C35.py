"""C35: work started from a search's log continues with the fittest that log holds."""
from . import evo
from .common import CLASSES, cls, spots

BOUNDS = ("logs of 1-3 generations with 1-4 elites, all parameters of the last generation's arbitrary (in pattern and co-evolution logs "
          "16 of each elite's, the rest fixed); automata of all continuous classes and neural ones of 2 hidden channels, radius 1, "
          "stepped from a 5x5 grid with 3 arbitrary cells; universe, pattern and co-evolution searches of 5-24 members")
OUTSIDE = "logs of searches with other settings than those given (kernel radius, channels); pattern logs without a configuration"
ASSUMPTIONS = []
OPTS = {"max_paths": 100}

AUT = ["CCA", "Lenia", "MetaCA", "RandomStepCA", "CODE", "NCA"]


def cases(tier):
    out = []
    for z in AUT:
        out.append((f"automaton-{z}", dict(kind="automaton", z=z)))
    out.append(("automaton-NCA-tanh", dict(kind="automaton", z="NCA", kw={"activation": "Tanh"})))
    out.append(("automaton-CCA-2-4", dict(kind="automaton", z="CCA", kw={"external_channels": 2, "internal_channels": 4})))
    out.append(("automaton-NCA-2", dict(kind="automaton", z="NCA", kw={"external_channels": 2, "internal_channels": 2})))
    for what in ("universe", "coevo", "pattern"):
        for n, have in ((8, 2), (16, 2), (5, 3)):
            out.append((f"search-{what}-{n}-{have}", dict(kind="search", what=what, n=n, have=have)))
    out.append(("pattern-under-a-rule", dict(kind="under")))
    out.append(("other-log", dict(kind="other")))
    for what, of in (("pattern", "coevo"), ("coevo", "pattern"), ("universe", "coevo")):
        out.append((f"{what}-from-{of}", dict(kind="kinds", what=what, of=of)))
    out.append(("chain", dict(kind="chain", n=8)))
    if tier == "thorough":
        out.append(("chain-24", dict(kind="chain", n=24)))
        for what in ("universe", "coevo", "pattern"):
            out.append((f"search-{what}-24-4", dict(kind="search", what=what, n=24, have=4)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def seeded(W, f):
    W.seed("torch", 3)
    W.seed("np", 3)
    return f()


def store(W, gens, **more):
    W.makedirs(W.root + "/logs", exist_ok=True)
    p = W.root + "/logs/log.npy"
    W.np_save(p, dict(more, elite_params=[W.nparray(g) for g in gens]))
    return p


def vec(W, base, name, every=1):
    """an arbitrary vector of that length"""
    return [W.real(f"{name}.{k}", 0.05, 0.9) if k % every == 0 else 0.1 + ((7 * k + len(name)) % 13) / 17.0
            for k in range(len(base))]


def run_automaton(W, z, kw=None):
    C = cls(W, CLASSES[z])
    kw = dict(kernel_radius=1, **(kw or {}))
    if z == "NCA":
        kw.update(hidden_channels=2)
    ref = seeded(W, lambda: C(**kw))
    p0 = W.L(ref.get_params())
    gens = W.pick("generations", [1, 3])
    last = [vec(W, p0, "best"), [0.3 + 0.01 * (k % 7) for k in range(len(p0))]]
    old = [[0.6 - 0.01 * (k % 5) for k in range(len(p0))] for _ in range(2)]
    path = store(W, [old] * (gens - 1) + [last])
    ca = seeded(W, lambda: C(input_filepath=path, **kw))
    ref.set_params(W.nparray(last[0]))
    W.check_close(W.L(ca.get_params()), last[0], 1e-6, "parameters")
    if z != "CODE":
        for a in (ca, ref):
            a.eval()
            a.reset()
        e = kw.get("external_channels", 1)
        u = [[[[((3 * i + 5 * j + c) % 7) / 7.0 for j in range(5)] for i in range(5)] for c in range(e)]]
        for t, q in enumerate(spots((e, 5, 5), 3)):
            u[0][q // 25][q // 5 % 5][q % 5] = W.real(f"c{t}", 0.0, 1.0)
        a, b = (seeded(W, lambda: W.L(x(W.tensor(u)))) for x in (ca, ref))
        W.check_close(a, b, 1e-5, "step")
    # the log stays as it was, and is not needed any more
    lg = W.np_load(path, allow_pickle=True).reshape(1)[0]
    W.check_close(lg["elite_params"][-1], last, 1e-6, "log-untouched")
    cfg = ca.make_config()
    W.remove(path)
    b = C(**kw)
    b.load_config(cfg)
    if z != "CCA" or kw.get("internal_channels", 1) == 1:
        W.check_close(W.L(b.get_params()), last[0], 1e-5, "restored-without-the-log")


def launch(W, what, n, path=None, **kw):
    m = W.imp("yuca.cmaes")
    cp = W.imp("yuca.cppn")
    gw = W.imp("yuca.wrappers.glider_wrapper")
    hw = W.imp("yuca.wrappers.halting_wrapper")
    cca = W.imp("yuca.ca.continuous").CCA
    kw = dict(dict(population_size=n, dim=5, kernel_radius=1, batch_size=1, ca_steps=1, ca_fn=cca), **kw)
    if path:
        kw["input_filepath"] = path
    make = {"universe": lambda: m.CMAES(env_fn=hw.SimpleHaltingWrapper, tag="", **kw),
            "coevo": lambda: m.CMACES(env_fn=gw.GliderWrapper, agent_fn=cp.CPPNPlus, tag="coevo", **kw),
            "pattern": lambda: m.CMAES(env_fn=gw.GliderWrapper, agent_fn=cp.CPPN, tag="pattern", **kw)}[what]
    return seeded(W, make)


def run_search(W, what, n, have):
    """a search continued from a log of its own kind"""
    cfg = {"ca_config": "orbium.npy"} if what == "pattern" else {}
    if cfg:
        cfg["kernel_radius"] = 13
        cfg["dim"] = 14
    a = launch(W, what, n, **cfg)
    d = len(W.L(a.starting_means))
    every = 1 if what == "universe" else max(1, d // 16)
    el = [vec(W, [0] * d, f"e{i}", every) for i in range(have)]
    path = store(W, [[[0.33] * d] * have, el])
    b = launch(W, what, n, path, **cfg)
    use = el[:n // 8 + 1]
    e = len(use)
    drawn = []
    b.sample_distribution = lambda: (drawn.append(W.L(b.means)), W.nparray([0.5 - 0.001 * (k % 90) for k in range(d)]))[1]
    b.reset()
    W.check_close(b.means, [sum(x[k] for x in use) / e for k in range(d)], 1e-5, "mean-of-the-elites")
    W.check(len(b.population) == n and len(drawn) == n - e, "population", info=f"{len(b.population)} {len(drawn)}")
    for i, x in enumerate(use):
        W.check_close(W.L(b.population[i].get_params()), x, 1e-5, "elites-continue")
    for x in drawn:
        W.check_close(x[::every], [sum(x[k] for x in use) / e for k in range(0, d, every)], 1e-5, "others-are-drawn-around-them")
    if what == "coevo":
        k = len(W.L(b.env.ca.get_params()))
        for i, x in enumerate(use):
            W.check_close(W.L(b.population[i].get_action()[0]), x[-k:], 1e-5, "rules-continue")
    if what == "pattern":
        ref = W.imp("yuca.ca.continuous").CCA(kernel_radius=13)
        ref.restore_config("orbium.npy", verbose=False)
        W.check_close(W.L(b.env.ca.get_params()), W.L(ref.get_params()), 1e-6, "rule-of-the-configuration")


def run_under(W):
    """patterns searched under the rule a universe search found"""
    a = launch(W, "universe", 5)
    p0 = W.L(a.env.ca.get_params())
    last = [vec(W, p0, "best"), [0.4] * len(p0)]
    path = store(W, [[[0.2] * len(p0)] * 2, last])
    b = launch(W, "pattern", 5, path)
    W.check_close(W.L(b.env.ca.get_params()), last[0], 1e-6, "rule-of-the-fittest")
    W.check(b.elite_params is None, "no-elites-of-another-kind")
    b.reset()
    W.check(len(b.population) == 5, "population")


def run_kinds(W, what, of):
    """a log of another kind of search gives no members"""
    kw = dict(kernel_radius=13, dim=14)
    a = launch(W, of, 5, **kw)
    d = len(W.L(a.starting_means))
    path = store(W, [[vec(W, [0] * d, f"e{i}", max(1, d // 16)) for i in range(2)]])
    if what != "universe":
        kw["ca_config"] = "orbium.npy"
    b = launch(W, what, 5, path, **kw)
    W.check(b.elite_params is None, "no-elites-of-another-kind")
    b.reset()
    c = launch(W, what, 5, **kw)
    W.check(len(b.population) == 5 and W.shape(b.means) == W.shape(c.starting_means), "population")


def run_other(W):
    """a configuration goes before a log"""
    a = launch(W, "universe", 5, kernel_radius=13, dim=14)
    p0 = W.L(a.env.ca.get_params())
    path = store(W, [[vec(W, p0, "best")] * 2])
    b = launch(W, "pattern", 5, path, ca_config="orbium.npy", kernel_radius=13, dim=14)
    ref = W.imp("yuca.ca.continuous").CCA(kernel_radius=13)
    ref.restore_config("orbium.npy", verbose=False)
    W.check_close(W.L(b.env.ca.get_params()), W.L(ref.get_params()), 1e-6, "rule-of-the-configuration")


def run_chain(W, n):
    """a search, continued from its own log, continued from that one's: the best of each starts the next"""
    rewards = []

    def reward(W, action):
        k = len(rewards)
        r = 0.1 * ((5 * k) % n) - 0.2
        if k % (2 * n) == n + 2:
            r = W.real(f"r{k // (2 * n)}", -1.0, 1.0)
            for j in range(n):
                if j != 2:
                    W.assume(abs(0.1 * ((5 * (k - 2 + j)) % n) - 0.2 - r) >= 1e-4)
        rewards.append(r)
        acts.append(W.L(action))
        return r
    acts = []
    path = None
    W.makedirs(W.root + "/logs", exist_ok=True)
    from .C14 import order
    for run in range(2):
        kw = {"input_filepath": path} if path else {}
        a = evo.build(W, n, 0, 2, reward=reward, generations=2, seed=[4], replicates=1, **kw)
        a.exp_id = f"exp_chain{run}"
        a.get_elite_configs = lambda: []
        rewards.clear()
        acts.clear()
        if path:
            W.seed("np", 9)
            a.reset()
            W.check_close([W.L(x.get_params()) for x in a.population[:len(best)]], best, 1e-5, "the-best-start-the-next-run")
        a.search()
        o = order(W, rewards[n:2 * n])[:n // 8 + 1]
        best = [acts[n + i] for i in o]
        path = f"{W.root}/logs/exp_chain{run}_seed4.npy"
        W.check(W.exists(path), "logged")
