"""C33: the search that runs is the one that was asked for, with every setting in place."""
BOUNDS = ("all kinds of search (by tag), automata, wrappers and number types by name, every combination by case splitting; "
          "arbitrary integers and reals for the numeric settings, handed on unchanged; in the real search, environment and "
          "automaton: kernel radius 1-3, 1-4 channels, grids of 6-10, batches of 1-3, 1-3 or 700 steps, 1-3 generations, 5-9 members")
OUTSIDE = "parsing of the command line (argparse); the workers (C15)"
ASSUMPTIONS = []
OPTS = {"max_paths": 400}

CAS = ["CCA", "NCA", "RxnDfn", "CODE", "Lenia", "MetaCA", "RandomStepCA"]
ENVS = ["HaltingWrapper", "SimpleHaltingWrapper", "RandomWrapper"]


def cases(tier):
    out = []
    for what in ("universe", "pattern", "coevo"):
        out.append((f"dispatch-{what}", dict(kind="dispatch", what=what)))
    out.append(("unknown", dict(kind="unknown")))
    out.append(("precision", dict(kind="precision")))
    for what in ("universe", "pattern", "coevo"):
        for z in CAS:
            if what == "coevo" and z in ("NCA", "RxnDfn") or tier == "quick" and what != "universe" and z not in ("CCA", "RxnDfn"):
                continue
            out.append((f"settings-{what}-{z}", dict(kind="settings", what=what, z=z)))
    for env in ENVS:
        out.append((f"wrapper-{env}", dict(kind="settings", what="universe", z="CCA", env=env)))
    out.append(("twice", dict(kind="twice")))
    out.append(("time-step", dict(kind="dt")))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def tag(what, i=0):
    return {"universe": ["exp", "s1_coev", ""], "pattern": ["pattern", "my_pattern_search", "coevo_pattern"],
            "coevo": ["coevo", "test_coevolve"]}[what][i]


class Rec:
    """stands in for a search: notes what it was made with and that it ran"""
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __call__(self, *a, **k):
        e = {"class": self.name, "args": a, "kwargs": k, "runs": 0}
        self.log.append(e)

        class S:
            def search(s):
                e["runs"] += 1
        return S()


def classes(W):
    g = lambda mod, *ns: {n: getattr(W.imp(mod), n) for n in ns}
    return {**g("yuca.ca.continuous", "CCA"), **g("yuca.ca.neural", "NCA"), **g("yuca.ca.reaction_diffusion", "RxnDfn"),
            **g("yuca.code", "CODE"), **g("yuca.lenia", "Lenia"), **g("yuca.metaca", "MetaCA"),
            **g("yuca.random_step_ca", "RandomStepCA"), **g("yuca.cppn", "CPPN", "CPPNPlus"),
            **g("yuca.params_agent", "ParamsAgent"),
            **g("yuca.wrappers.halting_wrapper", "HaltingWrapper", "SimpleHaltingWrapper"),
            **g("yuca.wrappers.random_wrapper", "RandomWrapper"), **g("yuca.wrappers.glider_wrapper", "GliderWrapper")}


def numbers(W, n=""):
    ints = "batch_size ca_steps internal_channels external_channels selection_mode generations hidden_channels kernel_radius " \
           "kernel_peaks replicates dim population_size prediction_mode workers".split()
    kw = {k: W.int(k + n, 1, 5000) for k in ints}
    kw["seed"] = [W.int("seed" + n, 0, 100000), 5]
    kw["learning"] = W.real("learning" + n, -1.0, 1.0)
    return kw


def recorded(W):
    m = W.imp("yuca.evolve")
    log = []
    m.CMAES, m.CMACES = Rec(log, "CMAES"), Rec(log, "CMACES")
    return m, log


def run_dispatch(W, what):
    m, log = recorded(W)
    C = classes(W)
    z = W.pick("automaton", CAS)
    env = W.pick("wrapper", ENVS)
    t = tag(what, W.pick("tag", [0, 1, 2] if what == "pattern" else [0, 1]))
    entry = W.pick("entry", ["evolve", "direct"])
    kw = numbers(W)
    text = {"activation": "SiLU", "conv_mode": "zeros", "device": "cpu", "ca_config": None, "input_filepath": None,
            "git_hash": "abc", "entry_point": ["evolve.py", ["-t", t]]}
    given = dict(kw, **text, tag=t, ca_fn=z, env_fn=env, dtype="float32")
    if entry == "evolve":
        m.evolve(**given)
    else:
        {"universe": m.universe_search, "pattern": m.pattern_search, "coevo": m.coevolve}[what](**given)
    W.check(len(log) == 1 and log[0]["runs"] == 1, "one-search-runs", info=str([(e["class"], e["runs"]) for e in log]))
    e = log[0]
    k = e["kwargs"]
    W.check(e["class"] == ("CMACES" if what == "coevo" else "CMAES"), "kind-of-search", info=e["class"])
    W.check(k.get("ca_fn") is C[z], "automaton", info=f"{z}: {k.get('ca_fn')}")
    want = C["GliderWrapper"] if what != "universe" else C[env]
    W.check(k.get("env_fn") is want, "wrapper", info=f"{env}: {k.get('env_fn')}")
    agent = {"universe": None, "pattern": C["CPPN"], "coevo": C["CPPNPlus"]}[what]
    W.check(k.get("agent_fn") is agent or (agent is None and k.get("agent_fn") is C["ParamsAgent"]), "agent",
            info=str(k.get("agent_fn")))
    for n, v in kw.items():
        if n == "external_channels" and z == "RxnDfn":
            W.check(k[n] == 2, "reaction-diffusion-has-two-channels")
        elif n == "seed":
            W.check_close([W.num(x) for x in k[n]], v, 1e-6, "seeds")
        else:
            W.check(n in k, f"setting-handed-on:{n}")
            W.check_close([W.num(k[n])], [v], 1e-6, f"setting-kept:{n}")
    for n, v in text.items():
        W.check(n in k and k[n] == v, f"setting-kept:{n}", info=str(k.get(n)))
    W.check(k.get("tag") == t, "tag-kept")


def run_unknown(W):
    m, log = recorded(W)
    what = W.pick("what", ["universe", "pattern", "coevo"])
    given = dict(tag=tag(what), ca_fn="Nothing", env_fn="HaltingWrapper", dtype="float32")
    W.check(W.raises(lambda: m.evolve(**given)) is not None, "unknown-automaton-refused")
    given = dict(tag=tag("universe"), ca_fn="CCA", env_fn="Nothing", dtype="float32")
    W.check(W.raises(lambda: m.evolve(**given)) is not None, "unknown-wrapper-refused")
    W.check(not log, "no-search-starts")


def run_precision(W):
    m, log = recorded(W)
    what = W.pick("what", ["universe", "pattern", "coevo"])
    seen = []
    for d in ("float64", "float32", "float64", "float16"):
        m.evolve(tag=tag(what), ca_fn="CCA", env_fn="HaltingWrapper", dtype=d)
        seen.append(str(W.torch.get_default_dtype()))
    W.torch.set_default_dtype(W.torch.float32)
    W.check([x.split(".")[-1] for x in seen] == ["float64", "float32", "float64", "float32"], "precision", info=str(seen))


def run_twice(W):
    """one call leaves nothing behind for the next, nor in the caller's dictionary"""
    m, log = recorded(W)
    C = classes(W)
    given = dict(tag="pattern", ca_fn="RxnDfn", env_fn="HaltingWrapper", dtype="float32", external_channels=1)
    keep = dict(given)
    m.evolve(**given)
    W.check(given == keep, "settings-untouched")
    m.evolve(tag="x", ca_fn="CCA", env_fn="RandomWrapper", dtype="float32", external_channels=3)
    W.check(len(log) == 2, "two-searches")
    k = log[1]["kwargs"]
    W.check(k["ca_fn"] is C["CCA"] and k["env_fn"] is C["RandomWrapper"] and k["external_channels"] == 3 and
            k.get("agent_fn") in (None, C["ParamsAgent"]), "second-call-on-its-own")


def real(W, what, z, env="SimpleHaltingWrapper", **kw):
    """the real search made by evolve, not run"""
    m = W.imp("yuca.evolve")
    cm = W.imp("yuca.cmaes")
    got = []
    keep = {c: c.__dict__.get("search") for c in (cm.CMAES, cm.CMACES)}
    m.CMAES, m.CMACES = cm.CMAES, cm.CMACES
    cm.CMAES.search = lambda self: got.append(self)
    try:
        m.evolve(tag=tag(what), ca_fn=z, env_fn=env, dtype="float32", **kw)
    finally:
        cm.CMAES.search = keep[cm.CMAES]
    W.check(len(got) == 1, "one-search-runs")
    return got[0]


def run_settings(W, what, z, env="SimpleHaltingWrapper"):
    """what the real objects do with the settings"""
    C = classes(W)
    if what == "universe":
        r = W.pick("radius", [1, 3] if z == "CCA" else [2])
        ext, inn = W.pick("channels", [(1, 1), (4, 2)] if z == "CCA" else [(1, 1)])
        dim, batch, steps = W.pick("sizes", [(9, 2, 2), (10, 3, 1), (9, 1, 700)])
        pop, gens = W.pick("search", [(5, 2), (9, 3)] if z == "CCA" else [(6, 3)])
    else:
        r, ext, inn, dim, batch, steps, pop, gens = W.pick("settings", [(1, 1, 1, 6, 2, 700, 5, 2), (3, 4, 2, 7, 3, 1, 7, 3)]
                                                           if z == "CCA" and what != "coevo" else
                                                           [(2, 1, 1, 6, 2, 2, 5, 2), (1, 1, 1, 7, 3, 1, 7, 3)])
    if z == "NCA":
        inn = ext
    mode = W.pick("mode", ["circular", "zeros"]) if what == "universe" else "zeros"
    W.seed("torch", 1)
    W.seed("np", 1)
    a = real(W, what, z, env, kernel_radius=r, external_channels=ext, internal_channels=inn, dim=dim, batch_size=batch,
             ca_steps=steps, population_size=pop, generations=gens, conv_mode=mode, selection_mode=1, replicates=2, seed=[8],
             hidden_channels=3, prediction_mode=0, workers=0, device="cpu", input_filepath=None, ca_config=None,
             activation="Gaussian", kernel_peaks=3, dt=0.3)
    W.check(type(a).__name__ == ("CMACES" if what == "coevo" else "CMAES"), "kind-of-search")
    W.check(type(a.env) is (C["GliderWrapper"] if what != "universe" else C[env]), "wrapper")
    ca = a.env.ca
    W.check(type(ca) is C[z], "automaton")
    W.check(a.population_size == pop and a.generations == gens and a.replicates == 2 and list(a.my_seed) == [8] and
            a.selection_mode == 1, "search-settings")
    W.check(a.env.ca_steps == steps, "steps")
    if z != "RxnDfn":
        W.check(ca.kernel_radius == r and ca.conv_mode == mode, "automaton-settings", info=f"{ca.kernel_radius} {ca.conv_mode}")
        W.check(ca.external_channels == ext and ca.internal_channels == inn, "channels")
    e = 2 if z == "RxnDfn" else ext
    # the population consists of agents of the right kind, with the automaton's or the pattern's parameters
    a.reset()
    W.check(len(a.population) == pop, "population")
    kind = {"universe": "ParamsAgent", "pattern": "CPPN", "coevo": "CPPNPlus"}[what]
    W.check(all(type(x) is C[kind] for x in a.population), "agents")
    act = a.population[1].get_action()
    k = len(W.L(ca.get_params()))
    if what == "universe":
        W.check(len(W.L(act)) == k, "rule-parameters")
    else:
        if what == "coevo":
            W.check(len(W.L(act[0])) == k, "rule-parameters")
            act = act[1]
        W.check(W.shape(act)[1:] == (e, dim, dim), "pattern-size", info=str(W.shape(act)))
    # the environment runs the automaton on grids of that size, for so many steps
    if what == "universe" and env != "HaltingWrapper" and env != "RandomWrapper":
        seen = []
        c = W.real("cell", 0.2, 0.9)

        def forward(g, mode=0):
            seen.append(W.shape(g))
            return W.tensor([[[[c] * dim] * dim] * e] * batch)
        ca.forward = forward
        a.env.step(act)
        W.check(len(seen) == steps and all(s == (batch, e, dim, dim) for s in seen), "grids-and-steps", info=str(seen))


def run_dt(W):
    """the step size that was asked for"""
    dt = W.real("dt", 0.05, 0.9)
    a = real(W, "universe", "CCA", kernel_radius=1, dim=6, batch_size=1, ca_steps=1, population_size=5, generations=1, dt=dt)
    W.check_close([W.num(a.env.ca.get_dt())], [dt], 1e-5, "asked-for-step-size")
