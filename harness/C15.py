"""C15: fitness is the mean reward, reproducible from the seed, and the same however it is distributed over workers."""
from . import evo
from .common import make as make_ca
from .common import zoo

BOUNDS = ("populations of 5-13 members with 2 parameters, arbitrary parameters of up to 3 members, rewards that depend on the "
          "parameters and on arbitrary random draws (torch and numpy); 1-3 steps, 1-4 replicates; 0-6 MPI ranks, any split of "
          "the population, two generations; two members evaluated one after the other in each environment with each automaton "
          "(grids of 5x5 and 6x6, 1-2 steps, one arbitrary parameter or cell per member)")
OUTSIDE = "real message passing between processes (messages are queued between simulated ranks)"
ASSUMPTIONS = ["random generators are functions of their seed and of what was drawn since"]


def cases(tier):
    out = []
    for steps, reps in ((1, 1), (1, 3), (3, 1), (2, 2)):
        out.append((f"formula-{steps}-{reps}", dict(kind="formula", steps=steps, reps=reps)))
    out.append(("repeat", dict(kind="repeat")))
    out.append(("repeat-search", dict(kind="repeat2")))
    out.append(("fresh-environment", dict(kind="fresh")))
    out.append(("fresh-environment-ces", dict(kind="fresh", ces=True)))
    for n, w in ((5, 2), (8, 3), (8, 4), (7, 3), (9, 5), (13, 4), (8, 2), (10, 6), (6, 6)):
        out.append((f"workers-{n}-{w}", dict(kind="workers", n=n, w=w)))
    out.append(("workers-1", dict(kind="workers", n=8, w=1)))
    out.append(("workers-any", dict(kind="anysplit")))
    out.append(("cma-ces", dict(kind="ces")))
    for env in ("simple", "halting", "glider"):
        for z in ("cca", "meta", "code", "rstep", "rxn", "nca", "lenia"):
            out.append((f"members-{env}-{z}", dict(kind="members", env=env, z=z)))
    if tier == "thorough":
        for env in ("simple", "halting", "glider"):
            for z in ("cca-2-4", "meta4", "code4", "rstep4", "nca4", "cca-smooth"):
                out.append((f"members-{env}-{z}", dict(kind="members", env=env, z=z, n=8)))
        for n in range(5, 21):
            for w in (2, 3, 4, 5, 7, 8):
                if w - 1 <= n:
                    out.append((f"all-{n}-{w}", dict(kind="workers", n=n, w=w)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def noisy(W, action):
    """a reward that depends on the action and on both random generators"""
    a = W.num(W.np.random.rand(1))
    b = W.num(W.torch.rand(1))
    r = action[0] * 0.5 - 0.25 * action[1] + 0.25 * a + 0.125 * b
    evo.CUR.setdefault("paid", []).append(r)
    return r


def make(W, n=8, syms=(0, 3), **kw):
    kw.setdefault("replicates", 1)
    a = evo.build(W, n, 0, 2, reward=noisy, **kw)
    W.seed("np", 1)
    a.reset()
    ps = evo.fill(W, a, 2, syms)
    return a, ps


def symrng(W):
    W.rng_mode = lambda lib, kind, shape, nm: "sym" if kind == "u" and shape == (1,) else "const"


def run_formula(W, steps, reps):
    a, ps = make(W)
    symrng(W)
    evo.CUR["paid"] = []
    for i in (0, 1, 3):
        evo.CUR["paid"].clear()
        f, alive = a.get_fitness(i, steps=steps, replicates=reps, seed=19)
        paid = evo.CUR["paid"]
        W.check(len(paid) == steps * reps, "steps-taken")
        W.check_close(f, sum(paid) / (steps * reps), 1e-5, "mean-reward")
        W.check_close(W.num(alive), 0.5, 1e-5, "mean-alive")
    W.check_close([W.L(x.get_params()) for x in a.population[:8]], ps, 1e-6, "population-kept")


def run_fresh(W, ces=False):
    """an environment that remembers what happened since its reset: every member and replicate starts from a reset one"""
    a, ps = make(W)
    st = dict(last=1.0, age=5, base=0.0)

    def reward(W, action):
        r = action[0] * 0.5 + 0.25 * st["last"] + 0.125 * st["age"] + st["base"]
        st.update(last=action[1], age=st["age"] + 1)
        return r

    def on_reset():
        st.update(last=0.0, age=0, base=0.125 * W.num(W.torch.rand(1)))
    evo.CUR.update(reward=reward, on_reset=on_reset)
    symrng(W)
    m = W.imp("yuca.cmaes")

    def fit(i, **k):
        if not ces:
            return a.get_fitness(i, **k)
        keep = a.population[i]

        class Two:
            def get_action(self):
                return keep.get_action(), keep.get_action()
        a.population[i] = Two()
        f = m.CMACES.get_fitness(a, i, **k)
        a.population[i] = keep
        return f
    for steps, reps in ((1, 2), (2, 2)):
        for i in (0, 3, 0, 1):
            f = fit(i, steps=steps, replicates=reps, seed=8)[0]
            p = ps[i]
            W.seed("torch", 8)
            want = 0.0
            for _ in range(reps):
                base = 0.125 * W.num(W.torch.rand(1))
                for s in range(steps):
                    want = want + p[0] * 0.5 + base + (0.25 * p[1] if s else 0.0) + 0.125 * s
            W.check_close(f, want / (steps * reps), 1e-5, "fresh-environment-per-replicate")


def run_members(W, env, z, n=6):
    """real automata in the real environments: what one member meets does not depend on who was evaluated before it"""
    m = W.imp("yuca.wrappers.glider_wrapper" if env == "glider" else "yuca.wrappers.halting_wrapper")
    n = 5 if env == "halting" else n
    klass = {"simple": "SimpleHaltingWrapper", "halting": "HaltingWrapper", "glider": "GliderWrapper"}[env]
    cm = W.imp("yuca.cmaes")
    states, inputs = [], []

    def search():
        if z == "code":       # steps that grow from call to call
            ca, ext, r = make_ca(W, "CODE", "poly", "gauss0", "gauss", 1, 0.3,
                                 kwargs=dict(prev_dt=0.1, min_dt=0.05, max_dt=2.0, error_threshold=0.9)), 1, 1
            ca.genesis_fns, ca.persistence_fns = [], []
            ca.add_genesis_fn({"name": "Polynomial", "coefficients": [0.25]})
            ca.add_persistence_fn({"name": "Polynomial", "coefficients": [0.3]})
            ca.include_parameters()
            ca.no_grad()
        else:
            ca, ext, r = zoo(W, z)
        step = ca.forward

        def forward(g, mode=0):
            x = step(g)
            states.append(W.L(x))
            inputs.append(g)
            return x
        ca.forward = forward
        a = cm.CMAES(env_fn=getattr(m, klass), ca_fn=lambda **k: ca, population_size=4, dim=n,
                     ca_steps=1 if env == "halting" else 2, batch_size=1,
                     replicates=1, kernel_radius=r, num_blocks=1, external_channels=ext)
        if env == "halting":
            a.env.train_steps = 1
            a.env.bigbang_steps = 1
            # the predictor is replaced by something simple that depends on its parameters
            a.env.forward = lambda g: 0.4 + 0.1 * a.env.final_layer.bias.sum() + 0.0 * W.torch.ones(g.shape[0], 1)
        return a, ca, ext
    W.seed("torch", 2)
    W.seed("np", 2)
    a, ca, ext = search()
    base = [float(x) for x in W.L(ca.get_params())]
    k = len(base)
    if env == "glider":
        def grid(t, i):
            u = [[[[0.1 + 0.07 * ((3 * x + 5 * y + 7 * c + t) % 11) for x in range(n)] for y in range(n)] for c in range(ext)]]
            u[0][0][1][i] = W.real(f"u{t}", 0.1, 0.9)
            return W.tensor(u)
        acts = [grid(0, 1), grid(4, 2)]
    else:
        acts = []
        for t in range(2):
            p = [x * (1.0 - 0.1 * t) for x in base]
            if env == "simple" or (t and z != "code4"):
                x = p[t % k]
                lo, hi = (0.15, 0.35) if z.startswith("code") else sorted((0.8 * x, 1.2 * x))
                p[t % k] = W.real(f"p{t}", lo, hi)
            acts.append(W.nparray(p))

    class Member:
        def __init__(self, x):
            self.x = x

        def get_action(self):
            return self.x * 1.0

    def fit(a, i, seed=5):
        a.population = [Member(x) for x in acts]
        states.clear()
        inputs.clear()
        f = a.get_fitness(i, steps=1, replicates=1, seed=seed)[0]
        return W.num(f), list(states)
    fit(a, 0)
    f1, s1 = fit(a, 1)
    f2, s2 = fit(a, 1)
    W.seed("torch", 2)
    W.seed("np", 2)
    b, _, _ = search()
    f3, s3 = fit(b, 1)
    if env == "halting" and z != "rstep":
        W.check(len(s3) == 6, "states-of-training-and-test", info=str(len(s3)))
        gs = list(inputs)
        for i in (0, 3):       # the training run and the test run both start from a reset automaton
            b.env.ca.reset()
            for k in range(i, i + 2):
                W.check_close(b.env.ca(gs[k]), s3[k], 1e-4, f"every-run-starts-from-a-reset-automaton:{i}")
    W.check(len(s1) == len(s2) == len(s3) and len(s1) > 0, "same-number-of-states")
    for x, y, lb in ((s1, s3, "independent-of-the-members-before"), (s2, s3, "independent-of-itself")):
        for g, h in zip(x, y):
            W.check_close(g, h, 1e-4, lb)
    W.check_close(f1, f3, 1e-4, "fitness-independent-of-the-members-before")
    W.check_close(f2, f3, 1e-4, "fitness-reproducible")


def run_repeat(W):
    """the same member and seed always get the same fitness, whatever was evaluated or drawn before"""
    a, ps = make(W)
    symrng(W)
    f = {}
    for i in (0, 3, 5):
        f[i] = a.get_fitness(i, steps=2, replicates=2, seed=11)[0]
    W.np.random.rand(3)
    W.torch.rand(2)
    a.get_fitness(2, steps=1, replicates=1, seed=4)
    for i in (5, 0, 3):
        W.check_close(a.get_fitness(i, steps=2, replicates=2, seed=11)[0], f[i], 1e-6, "reproducible")
    b, _ = make(W)
    for i in (3, 0):
        b.population[i].set_params(W.nparray(ps[i]))
        W.check_close(b.get_fitness(i, steps=2, replicates=2, seed=11)[0], f[i], 1e-6, "same-in-another-run")
    # members of one generation meet the same randomness: equal parameters, equal fitness
    a.population[6].set_params(W.nparray(ps[3]))
    W.check_close(a.get_fitness(6, steps=2, replicates=2, seed=11)[0], f[3], 1e-6, "same-conditions-for-all")


def spy(W, a):
    """record the fitness values a run ranks"""
    seen = []
    for n in ("update_population", "rank_population"):
        def g(fitness, *x, _f=getattr(a, n), **k):
            seen.append(([W.num(v) for v in fitness], [W.L(m.get_params()) for m in a.population[:len(fitness)]]))
            return _f(fitness, *x, **k)
        setattr(a, n, g)
    return seen


def expect(W, params, seed, reps):
    """fitness of these parameters under this seed, from the definition"""
    W.seed("np", seed)
    W.seed("torch", seed)
    r = [noisy(W, params) for _ in range(reps)]
    return sum(r) / reps


def launch(W, n, w, gens, seed, reps):
    """search() of rank 0, the other ranks simulated when rank 0 waits for them"""
    W.makedirs(W.root + "/logs", exist_ok=True)
    a = evo.build(W, n, 0, 2, reward=noisy, workers=w, generations=gens, seed=[seed], replicates=reps)
    a.starting_means = W.nparray([W.real("m0", 0.2, 0.8), 0.3])
    a.population = []
    m = W.imp("yuca.cmaes")
    done = []
    if w > 1:
        W.environ["IN_MPI"] = "1"
        W.comm.size = w

        def other(rank):
            st = {k: W.get_state(k) for k in ("np", "torch")}
            W.comm.rank = m.rank = rank
            W.comm.on_wait = None
            W.seed("np", f"proc{rank}")
            W.seed("torch", f"proc{rank}")
            b = evo.build(W, n, 0, 2, reward=noisy, workers=w, generations=gens, seed=[seed], replicates=reps)
            for i in range(3):
                W.np.random.rand(rank)
            from engine.wbase import NoMessage
            try:
                b.arm()
                done.append(rank)
            except NoMessage:
                pass
            for k, s in st.items():
                W.set_state(k, s)
            W.comm.rank = m.rank = 0
            W.comm.on_wait = other
        W.comm.on_wait = other
    seen = spy(W, a)
    a.search()
    if w > 1:
        for r in range(1, w):
            other(r)
        W.check(sorted(done) == list(range(1, w)), "workers-shut-down", info=str(done))
        W.check(not any(W.comm.queue.values()), "no-message-left")
    return a, seen


def run_workers(W, n, w):
    reps, gens, seed = 2, 2, 6
    a, seen = launch(W, n, w, gens, seed, reps)
    W.check(len(seen) == gens, "generations")
    for g, (fit, params) in enumerate(seen):
        W.check(len(fit) == n, "one-fitness-per-member", info=f"{len(fit)}")
        for f, p in zip(fit, params):
            W.check_close(f, expect(W, p, g * seed, reps), 1e-5, "fitness-of-its-member")


def run_anysplit(W):
    """any population size and number of workers"""
    n = W.pick("n", [4, 5, 6, 7])
    w = W.pick("w", [0, 2, 3, 5])
    run_workers(W, n, w)


def run_repeat2(W):
    """the same run twice gives the same result (with and without workers the later generations differ: the parent's random
    generator is reseeded by the evaluations it does itself)"""
    _, s1 = launch(W, 6, 0, 3, 5, 2)
    W.np.random.rand(4)
    _, s2 = launch(W, 6, 0, 3, 5, 2)
    _, s3 = launch(W, 6, 3, 3, 5, 2)
    W.torch.rand(4)
    _, s4 = launch(W, 6, 3, 3, 5, 2)
    for a, b, lb in ((s1, s2, "rerun"), (s3, s4, "rerun-with-workers")):
        for (fa, pa), (fb, pb) in zip(a, b):
            W.check_close(fa, fb, 1e-5, lb)
            W.check_close(pa, pb, 1e-5, lb + "-population")


def run_ces(W):
    """coevolution: the rule half of the action is set before the pattern is run"""
    m = W.imp("yuca.cmaes")

    class Agent:
        def __init__(self, **k):
            self.p = W.nparray([0.3, 0.2, 0.6])

        def get_params(self):
            return self.p

        def set_params(self, p):
            self.p = p

        def to_device(self, d):
            pass

        def get_action(self):
            return self.p[:2], self.p[2:]

    def reward(W, action):
        r = action[0] * 0.5 + 0.25 * W.num(W.torch.rand(1))
        evo.CUR.setdefault("paid", []).append(r)
        return r
    evo.CUR.update(W=W, reward=reward, start=[0.4, 0.2])
    a = m.CMACES(env_fn=evo.Env, agent_fn=Agent, population_size=5, tag="pattern", dim=4)
    rules = []
    st = a.env.step
    a.env.step = lambda act: (rules.append(list(a.env.ca.p)), st(act))[1]
    a.reset()
    p = [W.real(f"p{i}", 0.1, 0.9) for i in range(3)]
    a.population[2].set_params(W.nparray(p))
    symrng(W)
    evo.CUR["paid"] = []
    f, alive = a.get_fitness(2, steps=1, replicates=3, seed=9)
    paid = list(evo.CUR["paid"])
    W.check(len(paid) == 3, "steps-taken")
    W.check_close(W.num(alive), 0.5, 1e-5, "mean-alive")
    W.check_close(rules, [p[:2]] * 3, 1e-6, "rule-set-before-pattern")
    W.check_close(f, sum(paid) / 3, 1e-5, "mean-reward")
    W.torch.rand(5)
    W.check_close(a.get_fitness(2, steps=1, replicates=3, seed=9)[0], f, 1e-6, "reproducible")
