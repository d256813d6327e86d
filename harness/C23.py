"""C23: animations show the states of the run, in order, with the right colours."""
from engine.wbase import flatten

from . import fakeca

BOUNDS = ("runs of 1-12 (one of 60) steps of an automaton returning arbitrary states in [0,1] on 2x2..2x3 grids of 1-6 channels, "
          "speedups 1-3, patterns vanishing at any step, both tag forms, both inversions, the given colour map")
OUTSIDE = ("file formats (PNG and GIF encoding, palettes) and the colour maps themselves; frames left in the folder by an earlier "
           "interrupted run; modes other than 0")
ASSUMPTIONS = ["two animations are not finished within the same millisecond of a second"]


def cases(tier):
    out = []
    for ch in (1, 2, 3, 4, 6):
        for inv in (True, False):
            out.append((f"colours-{ch}-{inv}", dict(kind="colours", ch=ch, inv=inv)))
    for n, sp in ((2, 1), (12, 1), (5, 2), (4, 3), (60, 1)):
        out.append((f"order-{n}-{sp}", dict(kind="order", n=n, sp=sp)))
    for n, v in ((5, 2), (5, 1), (4, 0), (3, 2)):
        out.append((f"vanish-{n}-{v}", dict(kind="vanish", n=n, v=v)))
    out.append(("vanish-any", dict(kind="any")))
    out.append(("places", dict(kind="places")))
    out.append(("new-place", dict(kind="newplace")))
    out.append(("two", dict(kind="two")))
    out.append(("gif", dict(kind="gif")))
    out.append(("gif-long", dict(kind="giflong", n=131)))
    if tier == "thorough":
        out.append(("order-130-1", dict(kind="order", n=130, sp=1)))
        out.append(("order-20-5", dict(kind="order", n=20, sp=5)))
        for ch in (5, 8):
            out.append((f"colours-{ch}", dict(kind="colours", ch=ch, inv=True)))
    return out


def ok(W, cond, label, info=""):
    W.check(cond, label, info=info)
    return cond


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def frames(W, name, steps, ch=1, h=2, w=2, k=2):
    """states of a run: distinct, one bright cell so that they are not empty, k arbitrary cells"""
    out = []
    for t in range(steps):
        g = [[[[round(0.1 + 0.8 * ((7 * t + 3 * (i * w + j) + 5 * c) % 23) / 23, 4) for j in range(w)] for i in range(h)]
              for c in range(ch)]]
        n = 0
        for c in range(ch):
            for i in range(h):
                for j in range(w):
                    if (i, j) != (0, 0) and n < k and (i + j + c) % 2:
                        g[0][c][i][j] = W.real(f"{name}:{t}:{c}:{i}:{j}", 0.0, 1.0)
                        n += 1
        out.append(g)
    return out


def play(W, states, **kw):
    """run the animation over the scripted states; returns the recorded gif calls"""
    m = W.imp("yuca.utils")
    fakeca.script(W, lambda k, g: states[min(k + 1, len(states) - 1)])
    n = len(W.calls)
    kw.setdefault("frames_path", W.root + "/assets/gif_frames")
    if "cmap" not in kw:
        kw["cmap"] = lambda x: colours(W, x)
    m.save_fig_sequence(W.tensor(states[0]), fakeca.FakeCA(), **kw)
    return [c for c in W.calls[n:] if c[0] == "gif"], [c[1] for c in W.calls[n:] if c[0] == "imsave"]


def colours(W, x):
    xs = W.L(x)
    return W.nparray([[list(W.cmap(v)) for v in row] for row in xs])


def picture(W, g, inv=True):
    """expected colours (0..255) of the first sample of a state"""
    g = g[0]
    ch, h, w = len(g), len(g[0]), len(g[0][0])
    out = []
    for i in range(h):
        row = []
        for j in range(w):
            if ch >= 3:
                px = [g[c][i][j] for c in range(min(ch, 4))]
            elif ch == 2:
                px = [0.0, g[0][i][j], g[1][i][j]]
            else:
                px = list(W.cmap(g[0][i][j]))
            row.append([255 - 255 * x if inv and c < 3 else 255 * x for c, x in enumerate(px)])
        out.append(row)
    return out


def same_picture(W, got, want, label):
    sh = (len(want), len(want[0]), len(want[0][0]))
    if not ok(W, tuple(W.shape(got)) == sh, label + "-shape", info=f"{W.shape(got)} for {sh}"):
        return
    # within one grey level
    c = True
    for a, b in zip(flatten(W.L(got)), flatten(want)):
        c = W.and_(c, W.and_(a >= b - 1.001, a <= b + 1.001))
    W.check(c, label, info=f"{W.L(got) if W.concrete else ''} for {want if W.concrete else ''}")


def data(W, gif, first_first=True):
    """images in the gif, in order; the first one may be in it twice"""
    _, path, more, first = gif[:4]
    d = W.gif_images(path)
    if len(d) > 1 and len(more) and more[0] == first:
        d = d[1:]
    return d


def check_gif(W, gifs, states, label, inv=True):
    if not ok(W, len(gifs) == 1, label + "-one-animation", info=f"{len(gifs)}"):
        return
    d = data(W, gifs[0])
    if not ok(W, len(d) == len(states), label + "-length", info=f"{len(d)} images for {len(states)} states"):
        return
    W.check(gifs[0][6] is True, label + "-animated")
    for k, (a, g) in enumerate(zip(d, states)):
        same_picture(W, a, picture(W, g, inv), f"{label}-{k}")


def run_colours(W, ch, inv):
    st = frames(W, "u", 3, ch, 2, 3, 4)
    gifs, _ = play(W, st, num_steps=3, invert_colors=inv, tag="c")
    check_gif(W, gifs, st, "colours", inv)


def run_order(W, n, sp):
    st = frames(W, "u", n * sp + 1, k=1 if n > 12 else 2)
    gifs, _ = play(W, st, num_steps=n, speedup=sp, tag="o")
    check_gif(W, gifs, [st[k * sp] for k in range(n)], "order")
    W.check(all(x[1] == 0 for x in fakeca.CUR["log"] if x[0] == "mode"), "mode")


def run_vanish(W, n, v):
    st = frames(W, "u", n + 1)
    for t in range(v, n + 1):
        st[t] = [[[[W.real(f"d:{t}:{i}:{j}", 0.0, 0.0009) if i == j else 0.0 for j in range(2)] for i in range(2)]]]
    gifs, _ = play(W, st, num_steps=n, tag="v")
    if v == 0:
        W.check(len(gifs) == 0, "no-animation-of-nothing")
    else:
        check_gif(W, gifs, st[:v], "vanish")
    W.check(not W.exists(W.root + "/assets/gif_frames"), "frames-removed")


def run_any(W):
    """the pattern may or may not have vanished: the animation ends exactly when it has"""
    st = frames(W, "u", 4, k=0)
    x = W.real("x", 0.0, 1.0)
    W.assume(W.or_(x <= 0.00099, x >= 0.00101))
    st[2] = [[[[0.0, x], [0.0, 0.0]]]]
    gifs, _ = play(W, st, num_steps=4, tag="v")
    if W.decided(x < 0.001):
        check_gif(W, gifs, st[:2], "ends")
    else:
        check_gif(W, gifs, st[:4], "goes-on")


def run_places(W):
    base = W.scratch("c23")
    st = frames(W, "u", 3)
    gifs, im = play(W, st, num_steps=2, tag="run", gif_path=base, frames_path=base + "/deep/frames")
    check_gif(W, gifs, st[:2], "named")
    W.check(gifs[0][1].startswith(base + "/run/gif_run_") and gifs[0][1].endswith(".gif"), "place", info=gifs[0][1])
    W.check(all(p.startswith(base + "/deep/frames/") for p in im), "frames-place", info=str(im))
    gifs, _ = play(W, st, num_steps=2, tag=["folder", "name"], gif_path=base, frames_path=base + "/deep/frames")
    W.check(len(gifs) == 1 and gifs[0][1].startswith(base + "/folder/gif_name_"), "place-of-pair", info=str([g[1] for g in gifs]))
    W.check(not W.exists(base + "/deep/frames"), "frames-removed")
    W.check(W.isfile(gifs[0][1]), "kept")


def run_newplace(W):
    """the folder asked for is made"""
    st = frames(W, "u", 3)
    base = W.root + "/results_c23/of/today"
    gifs, _ = play(W, st, num_steps=2, tag="run", gif_path=base)
    check_gif(W, gifs, st[:2], "named")
    W.check(gifs[0][1].startswith(base + "/run/gif_run_"), "place", info=gifs[0][1])


def run_two(W):
    """a second animation does not contain frames of the first, nor replace it"""
    a, b = frames(W, "a", 5), frames(W, "b", 4)
    base = W.scratch("c23")
    ga, _ = play(W, a, num_steps=4, tag="t", gif_path=base)
    gb, _ = play(W, b, num_steps=2, tag="t", gif_path=base)
    check_gif(W, gb, b[:2], "second")
    check_gif(W, ga, a[:4], "first")
    W.check(ga[0][1] != gb[0][1], "own-names")


def run_giflong(W, n):
    """all frames of a long run"""
    m = W.imp("yuca.utils")
    base = W.scratch("c23")
    io = W.imp("skimage.io")
    st = []
    for k in range(n):
        st.append([[[W.int(f"{k}", 0, 255)] * 3] * 2])
        io.imsave(f"{base}/frame_{k:05d}.png", W.nparray(st[-1], "uint8"), check_contrast=False)
    c = len(W.calls)
    m.make_gif(frames_path=base, gif_path=base + "/out", tag="z")
    gifs = [x for x in W.calls[c:] if x[0] == "gif"]
    if ok(W, len(gifs) == 1, "one"):
        d = data(W, gifs[0])
        if ok(W, len(d) == n, "all", info=str(len(d))):
            W.check_close([W.L(x) for x in d], st, 1e-9, "in-order")


def run_gif(W):
    """make_gif joins the images of a folder in the order of their names, leaves other files alone"""
    m = W.imp("yuca.utils")
    base = W.scratch("c23")
    st = frames(W, "u", 4)
    io = W.imp("skimage.io")
    for k in (2, 0, 3, 1):
        img = [[[W.int(f"{k}:{i}:{j}", 0, 255) for _ in range(3)] for j in range(2)] for i in range(2)]
        st[k] = img
        io.imsave(f"{base}/frame_{k:05d}.png", W.nparray(img, "uint8"), check_contrast=False)
    W.write_text(base + "/notes.txt", "x")
    n = len(W.calls)
    m.make_gif(frames_path=base, gif_path=base + "/out", tag="z")
    gifs = [c for c in W.calls[n:] if c[0] == "gif"]
    if ok(W, len(gifs) == 1, "one"):
        d = data(W, gifs[0])
        if ok(W, len(d) == 4, "all", info=str(len(d))):
            for k in range(4):
                W.check_close(W.L(d[k]), st[k], 1e-9, f"in-order-{k}")
    W.check(W.exists(base + "/notes.txt"), "others-kept")
    W.check(not any(x.endswith(".png") for x in W.listdir(base)), "frames-removed")
