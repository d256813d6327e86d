"""A scripted automaton: the harness decides what each step returns."""

CUR = {}


def script(W, next_state, params=(0.15, 0.02, 0.2, 0.03), external_channels=1, kernel_radius=2):
    """next_state(k, grid as nested lists) -> nested lists, for the k-th step"""
    CUR.clear()
    CUR.update(W=W, next=next_state, params=list(params), ext=external_channels, r=kernel_radius, log=[], inputs=[])
    return CUR


class FakeCA:
    my_device = "cpu"

    def __init__(self, **kw):
        self.kwargs = kw
        self.external_channels = CUR["ext"]
        self.kernel_radius = CUR["r"]
        self.p = list(CUR["params"])

    def get_params(self):
        return CUR["W"].nparray(list(self.p))

    def set_params(self, p):
        self.p = list(CUR["W"].L(p))
        CUR["log"].append(("set_params", list(self.p)))

    def __call__(self, grid):
        W = CUR["W"]
        k = len(CUR["inputs"])
        CUR["inputs"].append(W.L(grid))
        CUR["log"].append(("step", k))
        return W.tensor(CUR["next"](k, CUR["inputs"][-1]))

    forward = __call__

    def get_frame(self, grid, mode=0):
        CUR["log"].append(("mode", mode))
        return self(grid)

    def restore_config(self, c):
        CUR["log"].append(("restore", c))

    def reset(self):
        CUR["log"].append(("reset",))

    def no_grad(self):
        pass
    eval = no_grad

    def to_device(self, d):
        self.my_device = d
