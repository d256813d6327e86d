"""C04: the clock advances by exactly the step used; reset rewinds it; previews and other automata do not touch it."""
from .common import spots, zoo

BOUNDS = "histories of up to 8 operations (step, change dt, preview, reset) with symbolic dt values in [0.001,2]"
OUTSIDE = "the second-order automaton, which keeps no clock; float32 rounding of the accumulated sum"
ASSUMPTIONS = []

NAMES = ("cca", "cca-4-4", "lenia", "nca", "nca4", "rxn", "rstep", "code")
SETTABLE = ("cca", "cca-4-4", "lenia", "nca", "nca4", "rxn")
HIST = ["sss", "sdsds", "spsp", "srs", "dsdrsds", "rsrs", "ssrdsps"]


def cases(tier):
    out = []
    for z in NAMES:
        for h in HIST if tier == "thorough" or z in ("cca", "rxn", "nca") else HIST[3:5] + ["ssps"]:
            out.append((f"{z}-{h}", dict(z=z, h=h)))
    for z in NAMES:
        out.append((f"{z}-two", dict(z=z, h="two")))
        out.append((f"{z}-batch", dict(z=z, h="ssrs", batch=2)))
    for z in ("code", "code4"):
        for h in ("sssrss", "srsrss"):
            # an automaton content with its largest step, which is above one
            out.append((f"{z}-{h}-max", dict(z=z, h=h, zero=True, attrs=dict(max_dt="sym"))))
    return out


def run(W, z, h, batch=1, attrs=None, zero=False):
    ca, ext, r = zoo(W, z)
    for k, v in (attrs or {}).items():
        setattr(ca, k, W.real(k, 1.1, 2.0) if v == "sym" else v)
    shape = (batch, ext, 3, 3)
    # contents are irrelevant to the clock; one arbitrary cell keeps every branch open
    u = W.field("u", shape, 0.2, 1.0, spots(shape, 1))
    if zero:
        u = [[[[0.0] * 3] * 3] * ext]
    g = lambda: W.tensor(u)
    if h == "two":
        other, _, _ = zoo(W, z)
        d1, d2 = W.real("d1", 0.001, 2.0), W.real("d2", 0.001, 2.0)
        if z in SETTABLE:
            ca.set_dt(d1)
            other.set_dt(d2)
        W.check_close([sc(W, ca.t_count)], [0.0], 1e-9, "starts-at-zero")
        ca(g())
        t1 = used(W, ca, z, d1)
        W.check_close([sc(W, ca.t_count), sc(W, other.t_count)], [t1, 0.0], 1e-4, "independent")
        other(g())
        t2 = used(W, other, z, d2)
        W.check_close([sc(W, ca.t_count), sc(W, other.t_count)], [t1, t2], 1e-4, "independent")
        return
    t = 0.0
    dt = ca.get_dt()
    n = 0
    for o in h:
        n += 1
        if o == "s":
            ca(g())
            d = used(W, ca, z, dt)
            t = t + d
            W.check_close([ca.get_dt()], [d], 1e-5, f"reported-dt:{n}")
        elif o == "d" and z in SETTABLE:
            dt = W.real(f"dt{n}", 0.001, 2.0)
            ca.set_dt(dt)
            W.check_close([ca.get_dt()], [dt], 1e-5, f"reported-dt:{n}")
        elif o == "p" and z in SETTABLE:
            ca.get_frame(g(), mode=n % 5)
        elif o == "r":
            ca.reset()
            t = 0.0
        W.check_close([sc(W, ca.t_count)], [t], 1e-4, f"clock:{n}")


def sc(W, x):
    """the number in a 0-d or one-element tensor"""
    x = W.L(x)
    while isinstance(x, list):
        x = x[0]
    return x


def used(W, ca, z, dt):
    """the step size in force: the one set, or the one the automaton chose for itself"""
    if z in SETTABLE:
        return dt
    return ca.dt
