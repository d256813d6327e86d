"""C30: rule agents hand out the parameters they were given, or their filtered form."""
BOUNDS = "vectors of 1-12 arbitrary parameters in [-3,3], all ways of making an agent, histories of 3 sets"
OUTSIDE = "parameters that are not numpy vectors"
ASSUMPTIONS = []


def cases(tier):
    out = []
    for n in (1, 4, 7) + ((12,) if tier == "thorough" else ()):
        for f in (False, True):
            out.append((f"set-{n}-{f}", dict(kind="set", n=n, f=f)))
            for how in ("params", "ca_params"):
                out.append((f"made-{how}-{n}-{f}", dict(kind="made", n=n, f=f, how=how)))
        out.append((f"drawn-{n}", dict(kind="drawn", n=n)))
    for f in (False, True):
        out.append((f"history-{f}", dict(kind="history", f=f)))
    out.append(("default", dict(kind="default")))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def agent(W, **kw):
    return W.imp("yuca.params_agent").ParamsAgent(**kw)


def filtered(W, p):
    return [W.clamp(abs(x), 0.0001, 1.0) for x in p]


def run_set(W, n, f):
    p = W.reals("p", (n,), -3.0, 3.0)
    a = agent(W, num_params=n, filter_params=f)
    v = W.nparray(p)
    a.set_params(v)
    want = filtered(W, p) if f else p
    W.check_close(W.L(a.get_params()), want, 1e-9, "read-back")
    W.check_close(W.L(a.get_action()), want, 1e-9, "action")
    W.check_close(W.L(a.get_params()), want, 1e-9, "action-keeps")
    W.check_close(W.L(v), p, 1e-12, "given-vector-kept")
    if f:
        W.check_range(a.get_action(), 0.0001, 1.0, 1e-9, "bounds")


def run_made(W, n, f, how):
    p = W.reals("p", (n,), -3.0, 3.0)
    a = agent(W, **{how: W.nparray(p), "filter_params": f})
    W.check(a.num_params == n, "size", info=str(a.num_params))
    W.check_close(W.L(a.get_params()), p, 1e-9, "made-with")
    W.check_close(W.L(a.get_action()), [abs(x) for x in p] if f else p, 1e-9, "action")


def run_drawn(W, n):
    W.seed("np", 5)
    a, b = agent(W, num_params=n), agent(W, num_params=n)
    for x in (a, b):
        W.check(W.shape(x.get_params()) == (n,) and x.num_params == n, "size", info=str(W.shape(x.get_params())))
        W.check_range(x.get_params(), 0.0, 1.0, 1e-9, "drawn-in-[0,1]")
    d = [v for lib, k, vs in W.drawn for v in vs] if W.drawn and len(W.drawn[0]) == 3 else []
    if d:
        W.check_close(W.L(a.get_params()) + W.L(b.get_params()), d[:2 * n], 1e-9, "agents-drawn-apart")
    p = W.L(b.get_params())
    a.set_params(W.nparray([0.5] * n))
    W.check_close(W.L(b.get_params()), p, 1e-12, "agents-independent")


def run_history(W, f):
    a = agent(W, num_params=3, filter_params=f)
    for k in range(3):
        p = W.reals(f"p{k}", (3,), -3.0, 3.0)
        a.set_params(W.nparray(p))
        if k != 1:
            W.check_close(W.L(a.get_action()), filtered(W, p) if f else p, 1e-9, f"set-{k}")
    q = W.L(a.get_params())
    a.set_params(a.get_params())
    W.check_close(W.L(a.get_params()), q, 1e-9, "setting-what-was-read-changes-nothing")


def run_default(W):
    a, b = agent(W), agent(W)
    W.check(a.num_params == len(W.L(a.get_params())), "size")
    a.set_params(W.nparray(W.reals("p", (4,), -1, 1)))
    W.check_close(W.L(b.get_params()), W.L(agent(W).get_params()), 1e-12, "defaults-not-shared")
