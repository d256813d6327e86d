"""C25: cells whose fourth channel is not above the alive threshold count as empty in every channel."""
from . import spec
from .common import CLASSES, cls, make_multi, spots, zoo

BOUNDS = ("one step (two for the second-order automaton) from arbitrary states with 4-6 channels, 3x3..4x5 grids, up to 12 "
          "symbolic cells plus the alpha channel; thresholds 0.1, 0.35 and symbolic in [0.05,0.9]")
OUTSIDE = "alpha values within 1e-4 of the threshold (float comparison); the exact threshold itself is covered by tie-* cases"
ASSUMPTIONS = []

Z4 = ("cca-4-4", "lenia4", "meta4", "rstep4", "nca4", "code4")


def cases(tier):
    out = []
    for z in Z4:
        out.append((f"dead-{z}", dict(kind="dead", z=z)))
        out.append((f"thr-{z}", dict(kind="dead", z=z, thr=0.35)))
        out.append((f"tie-{z}", dict(kind="tie", z=z)))
        out.append((f"alldead-{z}", dict(kind="alldead", z=z)))
    for z in ("cca-4-4", "nca4", "lenia4"):
        out.append((f"symthr-{z}", dict(kind="dead", z=z, thr="sym")))
    out.append(("mask-direct", dict(kind="mask")))
    out.append(("three-channels", dict(kind="three")))
    out.append(("six-channels", dict(kind="dead", z="cca-6-6")))
    out.append(("rxn", dict(kind="rxn")))
    if tier == "thorough":
        for z in Z4:
            out.append((f"batch-{z}", dict(kind="dead", z=z, shape=(3, 3, 4), k=10)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def build(W, z, thr=None):
    kw = {} if thr is None else {"alive_threshold": thr}
    if z == "nca4":
        ca = cls(W, CLASSES["NCA"])(kernel_radius=1, hidden_channels=2, external_channels=4, internal_channels=4, **kw)
        ca.eval()
        return ca, 4
    n = 6 if z == "cca-6-6" else 4
    k = {"cca-4-4": "CCA", "cca-6-6": "CCA", "lenia4": "Lenia", "meta4": "MetaCA", "rstep4": "RandomStepCA", "code4": "CODE"}[z]
    if k == "CODE":
        kw["min_dt"] = 0.3
    return make_multi(W, n, n, 1, 0.4, klass=k, kwargs=kw), n


def empty(W, u, thr):
    """the same state with the dead cells emptied"""
    return spec.alive(W, u, thr)


def step(W, ca, z, u):
    ca.reset()
    W.seed("np", 5)
    if z == "code4":
        ca.prev_dt = 0.3
    return ca(W.tensor(u))


def run_dead(W, z, thr=None, shape=(1, 3, 3), k=6):
    if thr == "sym":
        t = W.real("thr", 0.05, 0.9)
    else:
        t = 0.1 if thr is None else thr
    ca, n = build(W, z, None if thr is None else t)
    sh = (shape[0], n) + tuple(shape[1:])
    hard = z == "code4"
    u = W.field("u", sh, 0.0, 1.0, spots(sh, 1 if hard else k))
    for b in u:
        for i, row in enumerate(b[3]):
            for j, x in enumerate(row):
                if not hard and (i * 5 + j * 3) % 4 == 0:
                    row[j] = W.real(f"alpha:{i}:{j}", 0.0, 1.0)
                W.assume(abs(row[j] - t) >= 1e-3)
    W.check_close(step(W, ca, z, u), step(W, ca, z, empty(W, u, t)), 1e-3, "dead-is-empty")


def run_tie(W, z):
    """exactly at the threshold is dead; half is exactly representable"""
    ca, n = build(W, z, 0.5)
    sh = (1, n, 3, 3)
    u = W.field("u", sh, 0.0, 1.0, spots(sh, 1 if z == "code4" else 4))
    v = [[[list(r) for r in c] for c in b] for b in u]
    for i, j, a in ((0, 0, 0.5), (1, 1, 0.5), (1, 2, 0.75), (2, 2, 0.25), (0, 2, 0.5), (2, 0, 0.625), (0, 1, 0.0), (1, 0, 0.875),
                    (2, 1, 0.125)):
        u[0][3][i][j] = a
        for c in range(n):
            v[0][c][i][j] = u[0][c][i][j] if a > 0.5 else 0.0
    W.check_close(step(W, ca, z, u), step(W, ca, z, v), 1e-3, "threshold-is-dead")


def run_alldead(W, z):
    """a state without living cells evolves like the empty state"""
    ca, n = build(W, z)
    sh = (1, n, 3, 3)
    u = W.field("u", sh, 0.0, 1.0, spots(sh, 6))
    for i in range(3):
        for j in range(3):
            u[0][3][i][j] = W.real(f"al:{i}:{j}", 0.0, 0.099)
    W.check_close(step(W, ca, z, u), step(W, ca, z, spec.bmap(lambda x: 0.0, u)), 1e-3, "all-dead")


def run_mask(W):
    ca, n = build(W, "cca-4-4")
    u = W.reals("u", (2, 4, 2, 3), 0.0, 1.0)
    for b in u:
        for row in b[3]:
            for x in row:
                W.assume(abs(x - 0.1) >= 1e-4)
    t = W.tensor(u)
    before = W.L(t)
    W.check_close(ca.alive_mask(t), spec.alive(W, u, 0.1), 1e-6, "mask")
    W.check_close(t, before, 1e-9, "input-unmodified")


def run_three(W):
    """fewer than four channels: nothing is masked, so a small third-channel value still counts"""
    ca = make_multi(W, 3, 3, 1, 0.4)
    from .common import model_multi
    u = W.field("u", (1, 3, 3, 3), 0.0, 0.09, spots((1, 3, 3, 3), 10))
    W.check_close(ca(W.tensor(u)), model_multi(3, 3, 1, 0.4).step(W, u), 1e-3, "no-mask-below-four")


def run_rxn(W):
    ca, _, _ = zoo(W, "rxn")
    u = W.reals("u", (1, 4, 2, 2), 0.0, 1.0)
    W.check_close(ca.alive_mask(W.tensor(u)), u, 1e-5, "no-mask-in-reaction-diffusion")
