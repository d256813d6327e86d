"""A scripted environment for the evolution properties: reward and randomness come from the harness."""

CUR = {}


class CA:
    external_channels = 1
    my_device = "cpu"
    kernel_radius = 1

    def __init__(self):
        self.p = list(CUR['start'])
        self.saved = []

    def get_params(self):
        return CUR['W'].nparray(list(self.p))

    def set_params(self, p):
        self.p = list(CUR['W'].L(p))

    def make_config(self):
        return {"rule": list(self.p)}

    def save_config(self, path):
        self.saved.append((path, list(self.p)))

    def no_grad(self):
        pass
    eval = reset = no_grad

    def to_device(self, d):
        pass

class Env:
    def __init__(self, **k):
        self.ca = CA()
        self.ca_steps = 7
        self.log = []

    def reset(self):
        if CUR.get("on_reset"):
            CUR["on_reset"]()

    def eval(self):
        pass

    def to_device(self, d):
        pass

    def step(self, action):
        self.ca.set_params(action)
        r = CUR['reward'](CUR['W'], CUR['W'].L(action)) if CUR['reward'] else 0.0
        self.log.append((list(CUR['W'].L(action)), r))
        return 0, CUR['W'].tensor(r), False, {"active_grid": CUR['W'].tensor(0.5)}


def build(W, n=8, mode=0, d=2, means=None, reward=None, tag="", **kw):
    """a CMAES over `d` parameters whose environment pays reward(W, action) and consumes what reward draws"""
    m = W.imp("yuca.cmaes")
    CUR.update(W=W, reward=reward, on_reset=None, start=means if means is not None else [0.4, 0.2, 0.3, 0.1][:d])
    a = m.CMAES(env_fn=Env, population_size=n, selection_mode=mode, tag=tag, dim=4, **kw)
    a.save_gif = lambda *x, **k: None
    return a


def fill(W, a, d, symbolic, name="p"):
    """give every member of the population its own parameters; those of the members in `symbolic` are arbitrary"""
    ps = []
    for i in range(a.population_size):
        if i in symbolic:
            p = [W.real(f"{name}{i}.{k}", 0.05, 0.95) for k in range(d)]
        else:
            p = [0.1 + ((7 * i + 3 * k) % 23) / 29.0 for k in range(d)]
        a.population[i].set_params(W.nparray(p))
        ps.append(p)
    return ps
