"""C16: the pattern library returns what was stored, under names of its own, and never loses a pattern."""
BOUNDS = ("patterns of 1-4 dimensions up to 1x2x3x4 with arbitrary values; up to 12 earlier patterns of the same name (all "
          "orders of storing and loading in the histories listed), names with digits, dots and substrings of file extensions; "
          "single-line metadata with commas and spaces inside; crops at arbitrary bounds within 5x6; all shipped patterns")
OUTSIDE = "metadata with line breaks; more than 1000 patterns of one name"
ASSUMPTIONS = ["np.save/np.load round-trip arrays"]

META = [
    dict(config_name="orbium", entry_point="python -m yuca.evolve", commit_hash="abc123", notes="a glider"),
    dict(config_name="a,b.npy", entry_point="evolve.py -t x,y -s 1, 2", commit_hash="00,11", notes="slow, wide, 3 cells"),
    dict(ca_config="s613.npy", notes="from ca_config"),
    dict(),
    dict(config_name="one", ca_config="other"),
]


def cases(tier):
    out = []
    for i in range(len(META)):
        for v in (True, False):
            out.append((f"meta-{i}-{'verbose' if v else 'quiet'}", dict(kind="meta", i=i, verbose=v)))
    for sh in ((3,), (2, 3), (1, 3, 2), (1, 2, 3, 4), (1, 1, 1, 1)):
        out.append((f"values-{len(sh)}-{sh[-1]}", dict(kind="values", shape=sh)))
    for dt in ("float32", "uint8", "int64"):
        out.append((f"type-{dt}", dict(kind="values", shape=(1, 1, 2, 2), dtype=dt)))
    out.append(("history", dict(kind="history")))
    out.append(("many", dict(kind="many")))
    out.append(("gap", dict(kind="gap")))
    out.append(("names", dict(kind="names")))
    out.append(("crop", dict(kind="crop")))
    out.append(("shipped", dict(kind="shipped")))
    if tier == "thorough":
        out.append(("many-40", dict(kind="many", top=40)))
        out.append(("crop-9", dict(kind="crop", H=9, Wd=10)))
    return out


def run(W, kind, **p):
    globals()["run_" + kind](W, **p)


def lib(W, name, verbose=False):
    d = W.scratch("c16_" + name)
    return W.imp("yuca.zoo.librarian").Librarian(directory=d, verbose=verbose), d


def pattern(W, tag, shape=(1, 1, 2, 3), dtype="float64"):
    if dtype.startswith("float"):
        return W.reals(tag, shape, -1.0, 2.0)
    from engine.wbase import nest, prod
    return nest([W.int(f"{tag}:{i}", 0, 255) for i in range(prod(shape))], shape)


def want(m):
    c = m.get("config_name", "unspecified")
    return {"ca_config": m.get("ca_config", "unspecified") if c == "unspecified" else c,
            "entry_point": m.get("entry_point", "not specified"), "commit_hash": m.get("commit_hash", "not_specified"),
            "notes": str(m.get("notes"))}


def run_meta(W, i, verbose):
    L, _ = lib(W, "meta", verbose)
    p = pattern(W, "p")
    L.store(W.nparray(p), "thing", **META[i])
    q, meta = L.load("thing000")
    W.check_close(q, p, 1e-9, "pattern")
    for k, v in want(META[i]).items():
        W.check(meta[k].strip() == v, "metadata-" + k, info=f"{meta[k]!r} vs {v!r}")


def run_values(W, shape, dtype="float64"):
    L, _ = lib(W, "values")
    p = pattern(W, "p", shape, dtype)
    a = W.nparray(p, dtype)
    L.store(a, "v", config_name="c")
    q, _ = L.load("v000")
    W.check(W.shape(q) == tuple(shape) and str(q.dtype) == dtype, "shape-and-type", info=f"{W.shape(q)} {q.dtype}")
    W.check_close(q, p, 1e-6, "pattern")
    q[...] = 0
    W.check_close(L.load("v000")[0], p, 1e-6, "loaded-copy-is-independent")
    W.check_close(a, p, 1e-6, "stored-array-unchanged")


def run_history(W):
    """interleaved names: every pattern ever stored can still be loaded, with its own metadata"""
    L, d = lib(W, "history")
    L2 = W.imp("yuca.zoo.librarian").Librarian(directory=d, verbose=False)
    seq = ["a", "b", "a", "ab", "a", "a00", "b"]
    have = {}
    cnt = {}
    for i, n in enumerate(seq):
        p = pattern(W, f"p{i}", (1, 1, 2, 2 + i % 2))
        (L if i % 3 else L2).store(W.nparray(p), n, config_name=f"conf{i}", notes=f"note {i}")
        have[f"{n}{cnt.get(n, 0):03}"] = (p, f"conf{i}", f"note {i}")
        cnt[n] = cnt.get(n, 0) + 1
        for k, (p, c, nt) in have.items():
            q, meta = L.load(k)
            W.check_close(q, p, 1e-9, "earlier-patterns-kept")
            W.check(meta["ca_config"].strip() == c and meta["notes"].strip() == nt, "earlier-metadata-kept")
        L.update_index()
        W.check(list(L.index) == sorted(have), "index", info=f"{L.index}")
    W.check(list(W.imp("yuca.zoo.librarian").Librarian(directory=d).index) == sorted(have), "index-of-another-librarian")


def run_many(W, top=12):
    """however many patterns of the name exist, the next one gets a new name and the others stay"""
    n = W.int("n", 0, top)
    L, d = lib(W, "many")
    k = int(n)
    for i in range(k):
        W.np_save(f"{d}/x{i:03}.npy", W.nparray([float(i)]))
        W.write_text(f"{d}/x{i:03}.csv", f"ca_config,c{i}\ncommit_hash,h\nnotes, n\nentry_point,e")
    p = pattern(W, "p", (2,))
    L.store(W.nparray(p), "x", config_name="new")
    for i in range(k):
        q, m = L.load(f"x{i:03}")
        W.check_close(q, [float(i)], 1e-9, "earlier-pattern-kept")
        W.check(m["ca_config"].strip() == f"c{i}", "earlier-metadata-kept")
    q, m = L.load(f"x{k:03}")
    W.check_close(q, p, 1e-9, "new-pattern")
    W.check(m["ca_config"].strip() == "new", "new-metadata")


def run_gap(W):
    L, d = lib(W, "gap")
    for i in (0, 1, 3):
        W.np_save(f"{d}/x{i:03}.npy", W.nparray([float(i)]))
        W.write_text(f"{d}/x{i:03}.csv", f"ca_config,c{i}\ncommit_hash,h\nnotes, n\nentry_point,e")
    ps = []
    for j in range(3):
        p = pattern(W, f"p{j}", (2,))
        ps.append(p)
        L.store(W.nparray(p), "x", config_name=f"new{j}")
    L.update_index()
    W.check(list(L.index) == [f"x{i:03}" for i in range(6)], "index")
    for i in (0, 1, 3):
        W.check_close(L.load(f"x{i:03}")[0], [float(i)], 1e-9, "earlier-pattern-kept")
    for j, i in enumerate((2, 4, 5)):
        W.check_close(L.load(f"x{i:03}")[0], ps[j], 1e-9, "new-pattern")


def run_names(W):
    L, d = lib(W, "names")
    W.write_text(f"{d}/__init__.py", "")
    W.write_text(f"{d}/book.ipynb", "")
    W.makedirs(f"{d}/__pycache__", exist_ok=True)
    names = ["glider.v2", "my.python", "csv_like", "B3S23", "_", "z9", "notebook.ipynb_x"]
    ps = {}
    for n in names:
        ps[n] = pattern(W, "p" + n, (1, 2))
        L.store(W.nparray(ps[n]), n, config_name="c" + n)
    L.update_index()
    W.check(list(L.index) == sorted(n + "000" for n in names), "index", info=f"{L.index}")
    for n in names:
        q, m = L.load(n + "000")
        W.check_close(q, ps[n], 1e-9, "pattern")
        W.check(m["ca_config"].strip() == "c" + n, "metadata")


def run_crop(W, H=5, Wd=6):
    L, _ = lib(W, "crop")
    p = pattern(W, "p", (1, 2, H, Wd))
    a = W.nparray(p)
    r0, r1 = W.int("r0", 0, H - 1), W.int("r1", 1, H)
    c0, c1 = 1, W.int("c1", 2, Wd)
    W.assume(r0 < r1)
    r0, r1, c1 = int(r0), int(r1), int(c1)
    q = L.crop(a, (r0, r1), (c0, c1))
    W.check_close(q, [[[row[c0:c1] for row in ch[r0:r1]] for ch in b] for b in p], 1e-9, "crop")
    q[...] = 0.0
    W.check_close(a, p, 1e-9, "cropped-pattern-unchanged")


def run_shipped(W):
    """every shipped pattern is in the index, loads, and names a rule that exists"""
    L = W.imp("yuca.zoo.librarian").Librarian(verbose=False)
    d = W.root + "/yuca/zoo"
    names = sorted(x[:-4] for x in W.listdir(d) if x.endswith(".npy"))
    rules = set()
    todo = [W.root + "/ca_configs"]
    while todo:
        x = todo.pop()
        for y in W.listdir(x):
            if y.endswith(".npy"):
                rules.add(y)
            elif "." not in y:
                todo.append(x + "/" + y)
    W.check(len(names) > 40 and list(L.index) == names, "index")
    for n in names:
        q, m = L.load(n)
        W.check(len(W.shape(q)) >= 2, "shipped-pattern-loads", info=n)
        lo, hi = W.min_all([x for x in flat(W.L(q))]), W.max_all([x for x in flat(W.L(q))])
        W.check(lo >= -1e-6 and hi <= 1 + 1e-6, "shipped-pattern-is-a-state", info=n)
        c = m["ca_config"].strip()
        W.check(c in rules or c + ".npy" in rules, "shipped-rule-exists", info=n)


def flat(x):
    if isinstance(x, list):
        for y in x:
            yield from flat(y)
    else:
        yield x
