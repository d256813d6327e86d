"""C19: a CPPN agent's pattern is the configured network's output inside the disc, and is a function of its parameter vector."""
import math

BOUNDS = ("networks with 1-4 hidden units and 1-3 channels on 4x4..8x8 grids with arbitrary parameters (all of them for the "
          "smallest networks, otherwise 12 arbitrary ones among fixed others) or, for whole grids, arbitrary inputs")
OUTSIDE = "default network width 16 and grid 64x64 (the same code for every size); odd behaviour of cells within 1e-6 of the disc's edge"
ASSUMPTIONS = []


def cases(tier):
    out = []
    for d, h, c in ((4, 1, 1), (6, 2, 1), (6, 2, 2), (4, 1, 3), (8, 2, 1)):
        out.append((f"pattern-{d}-{h}-{c}", dict(kind="pattern", d=d, h=h, c=c)))
    for cls_, c in (("CPPN", 1), ("CPPN", 2), ("CPPNPlus", 1), ("CPPNPlus", 3)):
        out.append((f"params-{cls_}-{c}", dict(kind="params", klass=cls_, c=c)))
    out.append(("plus", dict(kind="plus")))
    for k in ("CPPN", "CPPNPlus"):
        out.append((f"changes-{k}", dict(kind="changes", klass=k)))
    out.append(("input", dict(kind="input")))
    out.append(("features", dict(kind="features")))
    out.append(("members", dict(kind="members")))
    for n in (4, 8):
        out.append((f"range-{n}", dict(kind="range", d=n)))
    if tier == "thorough":
        for d, h, c in ((8, 4, 1), (6, 3, 2), (6, 2, 3), (10, 3, 1)):
            out.append((f"pattern-{d}-{h}-{c}", dict(kind="pattern", d=d, h=h, c=c)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def feats(d):
    """16 features per cell, and the radius"""
    ax = [-1.0 + 2.0 * i / (d - 1) for i in range(d)]
    grid = [[(x, y, math.sqrt(x * x + y * y)) for x in ax] for y in ax]

    def norm(f):
        v = [[f(*t) for t in row] for row in grid]
        m = max(x for r in v for x in r)
        return [[x / m for x in r] for r in v]

    def raw(f):
        return [[f(*t) for t in row] for row in grid]
    pi = math.pi
    e = 1e-6
    return [raw(lambda x, y, r: x), raw(lambda x, y, r: 1 - r), raw(lambda x, y, r: abs(x)), raw(lambda x, y, r: abs(y)),
            norm(lambda x, y, r: 2 ** x), norm(lambda x, y, r: x * x), norm(lambda x, y, r: x ** 3),
            raw(lambda x, y, r: math.cos(pi * y)), raw(lambda x, y, r: math.sin(pi * x)),
            raw(lambda x, y, r: math.cos(2 * pi * y)), raw(lambda x, y, r: math.sin(2 * pi * x)),
            raw(lambda x, y, r: math.cos(4 * pi * y)), raw(lambda x, y, r: math.sin(4 * pi * x)),
            norm(lambda x, y, r: math.sin(4 * pi * r) / (r + e)), norm(lambda x, y, r: math.sin(8 * pi * r) / (r + e)),
            norm(lambda x, y, r: math.sin(16 * pi * r) / (r + e))], raw(lambda x, y, r: r)


def sizes(h, c):
    out = []
    for o, i in ((h, 16 * c), (h, h), (h, h), (c, h)):
        out += [(o, i), (o,), (1,), (1,)]      # weights, biases, centre and width of the activation
    return out


def vector(W, h, c, k=None, tag="p"):
    n = sum(math.prod(s) for s in sizes(h, c))
    rnd = [math.sin(1.7 * i + 0.3) * 0.6 for i in range(n)]
    syms = range(n) if k is None else sorted({(j * n) // k for j in range(k)} | {n - 1, n - h - 1})
    for i in syms:
        rnd[i] = W.real(f"{tag}{i}", -1.0, 1.0)
    i = 0
    for l, s in enumerate(sizes(h, c)):
        i += math.prod(s)
        if l % 4 == 3:
            rnd[i - 1] = 0.3 + 0.1 * (l // 4) if k is not None and l < 15 else W.real(f"{tag}width{l}", 0.2, 2.0)
    return rnd


def network(W, p, h, c):
    """the network as a function of a feature vector, from its parameter vector"""
    parts, i = [], 0
    for s in sizes(h, c):
        n = math.prod(s)
        parts.append(p[i:i + n])
        i += n

    def f(x):
        for l in range(4):
            w, b, (mu,), (sg,) = parts[4 * l:4 * l + 4]
            n = len(x)
            z = [(sum(w[o * n + j] * x[j] for j in range(n)) + b[o] - mu) / (1e-9 + sg) for o in range(len(b))]
            x = [W.exp(-(v * v) / 2) for v in z]
        return x
    return f


def make(W, klass="CPPN", **kw):
    m = W.imp("yuca.cppn")
    W.seed("torch", 5)
    return getattr(m, klass)(**kw)


def expected(W, p, d, h, c, cells=None):
    fs, rr = feats(d)
    net = network(W, p, h, c)
    out = [[[0.0] * d for _ in range(d)] for _ in range(c)]
    for y in range(d):
        for x in range(d):
            if rr[y][x] >= 0.75:
                continue
            v = net([f[y][x] for f in fs] * c)
            for ch in range(c):
                out[ch][y][x] = (1 - rr[y][x]) ** 2 * v[ch]
    return [out]


def run_pattern(W, d, h, c):
    a = make(W, hidden_dim=h, dim=d, external_channels=c)
    p = vector(W, h, c, 12)
    a.set_params(W.nparray(p))
    out = W.L(a.get_action())
    W.check_close(out, expected(W, p, d, h, c), 1e-4, "pattern")
    W.check_close(W.L(a.get_action()), out, 1e-6, "same-pattern-again")


def run_params(W, klass, c):
    h, d = 2, 4
    a = make(W, klass, hidden_dim=h, dim=d, external_channels=c)
    extra = [W.real(f"q{i}", 0.0, 1.0) for i in range(4)] if klass == "CPPNPlus" else []
    first = W.L(a.get_params())
    W.check(len(first) == sum(math.prod(s) for s in sizes(h, c)) + len(extra), "length", info=str(len(first)))
    W.check_close(first[:-4], W.L(a.get_params())[:-4], 1e-7, "read-twice")
    p = vector(W, h, c) + extra
    before = W.L(a.grid)
    a.set_params(W.nparray(p))
    W.check_close(W.L(a.get_params()), p, 1e-5, "read-back")
    b = make(W, klass, hidden_dim=h, dim=d, external_channels=c)
    b.set_params(a.get_params())
    W.check_close(W.L(b.get_params()), p, 1e-5, "handed-on")
    b.set_params(W.nparray([0.1] * len(p)))
    W.check_close(W.L(a.get_params()), p, 1e-5, "independent")
    W.check_close(W.L(a.grid), before, 1e-6, "input-unchanged")


def run_plus(W):
    """pattern and rule are the two halves of one vector"""
    h, d = 1, 4
    a = make(W, "CPPNPlus", hidden_dim=h, dim=d)
    n = sum(math.prod(s) for s in sizes(h, 1))
    p = vector(W, h, 1, 10)
    rule = [W.real(f"q{i}", 0.0, 1.0) for i in range(6)]
    a.set_params(W.nparray(p + rule))
    r, g = a.get_action()
    W.check_close(W.L(r), rule, 1e-6, "rule")
    W.check_close(W.L(g), expected(W, p, d, h, 1), 1e-4, "pattern")
    W.check_close(W.L(a.get_rule_action()), rule, 1e-6, "rule-alone")
    W.check_close(W.L(a.get_pattern_action()), W.L(g), 1e-6, "pattern-alone")
    b = make(W, "CPPNPlus", hidden_dim=h, dim=d, ca_params=W.nparray(rule))
    W.check_close(W.L(b.get_rule_action()), rule, 1e-6, "starting-rule")
    W.check(len(W.L(b.get_params())) == n + 6, "length-with-rule")
    for k in (3, 6):
        whole = [x + 0.0 for x in p] + rule[:k]
        e = make(W, "CPPNPlus", hidden_dim=h, dim=d, params=W.nparray(whole))
        W.check_close(W.L(e.get_params()), whole, 1e-6, "made-with-vector")
        W.check_close(W.L(e.get_rule_action()), rule[:k], 1e-6, "made-with-rule")


def run_input(W):
    """another input: the same network, the same disc, the given values unchanged"""
    h, d, c = 2, 4, 1
    a = make(W, hidden_dim=h, dim=d, external_channels=c)
    p = vector(W, h, c, 3)
    a.set_params(W.nparray(p))
    fs, rr = feats(d)
    x = [[[W.real(f"x{f}.{i}.{j}", -1.0, 1.0) if (f + i + j) % 5 == 0 else fs[f][i][j] for j in range(d)] for i in range(d)] for f in range(16)]
    t = W.tensor([x])
    out = W.L(a.get_action(t))
    net = network(W, p, h, c)
    want = [[[[(1 - rr[i][j]) ** 2 * net([x[f][i][j] for f in range(16)])[0] if rr[i][j] < 0.75 else 0.0 for j in range(d)] for i in range(d)]]]
    W.check_close(out, want, 1e-4, "pattern-of-the-input")
    W.check_close(W.L(t), [x], 1e-6, "input-unchanged")


def run_changes(W, klass):
    """the pattern always belongs to the vector that was set last, whatever was asked for before"""
    h, d = 1, 4
    a = make(W, klass, hidden_dim=h, dim=d)
    extra = [0.2, 0.4, 0.6, 0.8] if klass == "CPPNPlus" else []
    ps = [vector(W, h, 1, 3, tag=t) for t in "uvw"]

    def pattern():
        o = a.get_action()
        return o[1] if klass == "CPPNPlus" else o
    first = None
    for i, p in enumerate(ps):
        vec = [x + 0.0 for x in p] + extra
        if i == 2:
            a.get_pattern_action() if klass == "CPPNPlus" else a.get_action(a.grid * 0.5)
        a.set_params(W.nparray(vec))
        o = pattern()
        want = expected(W, p, d, h, 1)
        W.check_close(W.L(o), want, 1e-4, f"pattern-{i}")
        o[0, 0, 1, 1] = 7.0
        W.check_close(W.L(pattern()), want, 1e-4, f"own-pattern-{i}")
    a.set_params(W.nparray([x + 0.0 for x in ps[0]] + extra))
    W.check_close(W.L(pattern()), expected(W, ps[0], d, h, 1), 1e-4, "pattern-back")


def run_features(W):
    d = W.pick("d", [4, 6, 7, 8])
    c = W.pick("c", [1, 2, 3])
    a = make(W, hidden_dim=1, dim=d, external_channels=c)
    fs, rr = feats(d)
    W.check_close(W.L(a.grid), [fs * c], 2e-4, "features")
    W.check_close(W.L(a.rr), [[rr] * c], 1e-5, "radius")


def run_range(W, d):
    """patterns are non-negative, at most one, and vanish outside the disc"""
    a = make(W, hidden_dim=1, dim=d)
    p = vector(W, 1, 1, 6)
    a.set_params(W.nparray(p))
    out = W.L(a.get_action())
    W.check_range(out, 0.0, 1.0, 1e-6, "range")
    _, rr = feats(d)
    W.check_close([out[0][0][i][j] for i in range(d) for j in range(d) if rr[i][j] >= 0.75], [0.0] * sum(r >= 0.75 for w in rr for r in w),
                  1e-5, "nothing-outside-the-disc")


def run_members(W):
    """an agent made with a parameter vector (as the search makes its members) has it"""
    for klass, extra in (("CPPN", 0), ("CPPNPlus", 4)):
        n = sum(math.prod(s) for s in sizes(1, 1))
        p = vector(W, 1, 1, 8, tag=klass) + [W.real(f"q{i}", 0.0, 1.0) for i in range(extra)]
        a = make(W, klass, hidden_dim=1, dim=4, params=W.nparray(p), external_channels=1)
        W.check_close(W.L(a.get_params()), p, 1e-5, f"parameters-{klass}")
