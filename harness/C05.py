"""C05: wrap-around automata commute with shifts (and mirror/quarter-turn), and batch members do not interact."""
from . import spec
from .common import ZOO, off_threshold, roll, spots, zoo

BOUNDS = ("one step (two for automata that carry history); every shift listed in the case parameters, incl. negative and "
          "wrap-around ones; grids 3x4..7x8; up to 10 symbolic cells; batches of 1-3")
OUTSIDE = "float32 summation order (compared within 2e-4); the adaptive variant's batch coupling through its common step size"
ASSUMPTIONS = ["states in [0,1]", "alpha values at least 1e-4 away from the alive threshold"]


def cases(tier):
    out = []
    for z in ZOO:
        out.append((f"shift-{z}", dict(kind="shift", z=z)))
        if not z.startswith("code"):
            out.append((f"batch-{z}", dict(kind="batch", z=z)))
    for z in ("cca", "cca-r2", "cca-smooth", "lenia", "rxn", "meta", "cca-2-4"):
        out.append((f"mirror-{z}", dict(kind="mirror", z=z)))
    for z in ("cca-r2", "nca", "rxn", "lenia"):
        for mode in ("zeros", "replicate"):
            out.append((f"batch-{mode}-{z}", dict(kind="batch", z=z, mode=mode)))
    for z in ("cca", "lenia", "meta", "nca", "rxn", "cca-4-4"):
        out.append((f"square-{z}", dict(kind="square", z=z, n=10)))
    for z in ("cca-4-4", "nca4", "meta4", "rxn", "lenia"):
        out.append((f"batch-{z}-9", dict(kind="batch", z=z, n=9, k=9)))
    if tier == "thorough":
        for z in ("cca", "cca-2-4", "lenia", "rxn", "meta"):
            out.append((f"shift-{z}-all", dict(kind="shift", z=z, shifts=[(a, b) for a in range(-2, 4) for b in range(-2, 5)])))
            out.append((f"batch-{z}-3", dict(kind="batch", z=z, n=3, k=9)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def field(W, shape, k, name="u"):
    u = W.field(name, shape, 0.0, 1.0, spots(shape, k))
    off_threshold(W, u)
    return u


def go(W, ca, z, states):
    """run a fresh history through the automaton"""
    ca.reset()
    if z.startswith("code"):
        ca.prev_dt = 0.3
    W.seed("np", 5)
    r = None
    for u in states:
        r = W.L(ca(W.tensor(u)))
    return r


def shape_of(ext, r):
    return (1, ext, 3, 4) if r == 1 else (1, ext, 2 * r + 1, 2 * r + 2)


def run_shift(W, z, shifts=((1, 0), (0, 1), (-1, 2), (2, -3))):
    ca, ext, r = zoo(W, z)
    sh = shape_of(ext, r)
    hist = z.startswith(("meta", "rstep"))
    us = [field(W, sh, 1 if z.startswith("code") else 6)] + ([field(W, sh, 2, "v")] if hist else [])
    base = go(W, ca, z, us)
    for a, b in shifts:
        W.check_close(go(W, ca, z, [roll(u, a, b) for u in us]), roll(base, a, b), 2e-4, f"shift:{a},{b}")


def run_mirror(W, z):
    ca, ext, r = zoo(W, z)
    n = 2 * r + 2 if r > 1 else 4
    u = field(W, (1, ext, n, n), 6)
    fl = lambda x: [[[row[::-1] for row in c] for c in b] for b in x]
    tr = lambda x: [[[list(row) for row in zip(*c)] for c in b] for b in x]
    base = go(W, ca, z, [u])
    W.check_close(go(W, ca, z, [fl(u)]), fl(base), 2e-4, "mirror")
    W.check_close(go(W, ca, z, [tr(u)]), tr(base), 2e-4, "transpose")


def run_square(W, z, n):
    """a larger square grid: shifts and mirror images"""
    ca, ext, r = zoo(W, z)
    u = field(W, (1, ext, n, n), 2)
    fl = lambda x: [[[row[::-1] for row in c] for c in b] for b in x]
    base = go(W, ca, z, [u])
    W.check_close(go(W, ca, z, [roll(u, 1, -4)]), roll(base, 1, -4), 2e-4, "shift")
    if z != "nca":
        W.check_close(go(W, ca, z, [fl(u)]), fl(base), 2e-4, "mirror")


def run_batch(W, z, mode="circular", n=2, k=6):
    ca, ext, r = zoo(W, z, mode)
    b, e, h, w = shape_of(ext, r)
    us = [field(W, (n, e, h, w), k)]
    if z.startswith(("meta", "rstep")):
        us.append(field(W, (n, e, h, w), 2, "v"))
    whole = go(W, ca, z, us)
    for i in range(n):
        W.check_close([whole[i]], go(W, ca, z, [[u[i]] for u in us]), 2e-4, f"batch:{i}")
