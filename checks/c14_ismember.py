import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C14"
FLAVOURS = {"quick": {"rel": 8500, "asan": 1800}, "thorough": {"rel": 120000, "asan": 20000}}
RULE = ("One case draws a needle and a haystack column (or several columns, or categorical bins), overlapping by a drawn share and with "
        "duplicates, colliding values, both zeros and NaN, layouts of both, a hash mode, a size hint and a threading mode, and compares flags "
        "and first positions with a sort-based reference. A signature is (operation, dtype, hash mode, hint class, layouts, length classes, "
        "threading mode).")
ASSUMPTIONS = ["NaN is a member of nothing; 0.0 and -0.0 are equal (single-column calls)",
               "columns of a multi-key call hold no NaN and no -0.0: rows are compared by their bytes there",
               "a call may raise RuntimeError when its size hint is smaller than the number of distinct haystack values",
               "float16, long double, complex, record and object columns are not supported and may be declined"]

DTS = [np.dtype(k) for k in "?bhiqBHIQlLfd"] + [np.dtype("f"), np.dtype("d"), np.dtype("M8[ns]"), np.dtype("m8[ns]")]
LAY = ["c", "c", "c", "off", "mis", "step", "neg", "ro", "swap"]
PRIMES = [53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317]


def cls(n):
    return "L" if n > 32768 else "M" if n >= 100 else n // 16


def lay(c, x):
    k = c.pick(LAY)
    if k == "swap":
        return x.astype(x.dtype.newbyteorder(">")), k
    return gen.lay(c, x, k), k


def sizes(c):
    k = c.pick(["any", "any", "small_hay", "big_hay", "cut"])
    n = gen.length(c)
    m = gen.length(c)
    if k == "small_hay":
        m = int(c.rng.integers(0, 12))
    elif k == "big_hay":
        n = int(c.rng.integers(0, 200))
    elif k == "cut":  # where the width of the index changes
        m = int(c.pick([98, 99, 100, 101, 127, 128, 129, 255, 256])) if c.coin(0.6) or c.flavour != "rel" else int(c.pick([29999, 30000, 30001, 32767, 32768, 32769]))
    return n, m


def draw(c, kind, n, m):
    """Needles and haystack of one kind; a drawn share of the needles comes from the haystack."""
    if kind in "SU":
        pool = int(c.pick([2, 30, max(2, m)]))
        both = gen.strings(c, kind, n + m, pool=pool)
        nd, hs = both[:n].copy(), both[n:].copy()
        if n and c.coin(0.5):
            alien = gen.strings(c, kind, n, width=int(c.pick([1, 3, 4, 8, 9, 20])))
            w = max(alien.dtype.itemsize, nd.dtype.itemsize) // (4 if kind == "U" else 1)
            nd = np.where(c.rng.random(n) < c.pick([0.01, 0.5, 0.99]), alien, nd).astype(f"{kind}{w}")
        r = c.rng.random()
        if r < 0.2:
            hs = hs.astype(f"{kind}{max(1, int(c.rng.integers(1, 12)))}")
        elif r < 0.4:
            nd = nd.astype(f"{kind}{max(1, int(c.rng.integers(1, 12)))}")
        return nd, hs
    dt = c.pick(DTS)
    base = np.dtype("q") if dt.char in "Mm" else dt
    mode = c.pick(["gen", "gen", "dense", "collide", "prime", "range", "perm"])
    if base.kind == "b" or mode == "gen":
        hs = gen.values(c, base, m)
        nd = gen.values(c, base, n)
    else:
        top = min(2 ** 62, int(np.iinfo(base).max) if base.kind in "iu" else 2 ** 24)
        if mode == "dense":
            hs, nd = c.rng.integers(0, 50, m), c.rng.integers(0, 60, n)
        elif mode == "collide":
            s = 2 ** int(c.rng.integers(0, max(1, top.bit_length() - 3)))
            hs, nd = c.rng.integers(0, 9 + m, m) * s, c.rng.integers(0, 9 + m, n) * s
        elif mode == "prime":
            p = c.pick(PRIMES)
            hs, nd = c.rng.integers(0, 9 + m, m) * p, c.rng.integers(0, 9 + m, n) * p
        elif mode == "range":
            k = int(c.rng.integers(0, 10)) * m
            hs, nd = np.arange(m) + k, np.arange(n) + k - int(c.rng.integers(0, n + 2))
        else:
            hs, nd = c.rng.permutation(m), c.rng.permutation(n) - n // 3
        with np.errstate(all="ignore"):
            hs, nd = (hs % (top + 1)).astype(base), (nd % (top + 1)).astype(base)
            if base.kind == "f":
                hs, nd = hs / base.type(4), nd / base.type(4)
    if n and m and c.coin(0.7):
        q = c.rng.random(n) < c.pick([0.01, 0.3, 0.9, 1.0])
        nd[q] = hs[c.rng.integers(0, m, int(q.sum()))]
    if base.kind == "f" and c.coin(0.4):
        for x in (hs, nd):
            z = c.rng.random(len(x)) < c.pick([0.02, 0.2])
            x[z] = c.rng.choice(np.array([0.0, -0.0, np.inf, -np.inf, np.nan], base), int(z.sum()))
    return (nd.view(dt), hs.view(dt)) if dt.char in "Mm" else (nd, hs)


def reference(nd, hs):
    """(flag, first position or -1) by sorting the haystack."""
    if nd.dtype.kind in "Mm":
        nd, hs = nd.view("q"), hs.view("q")
    if not len(hs):
        return np.zeros(len(nd), bool), np.full(len(nd), -1)
    if hs.dtype.kind == "f":
        pos = np.flatnonzero(hs == hs)
        hs = hs[pos]
        if not len(hs):
            return np.zeros(len(nd), bool), np.full(len(nd), -1)
    else:
        pos = np.arange(len(hs))
    u, first = np.unique(hs, return_index=True)
    i = np.minimum(np.searchsorted(u, nd), len(u) - 1)
    f = u[i] == nd
    return f, np.where(f, pos[first[i]], -1)


def flags_and_index(c, key, got, f, ix, m, shape, det):
    c.check(isinstance(got, tuple) and len(got) == 2, key + ":result", lambda: f"{type(got).__name__}; {det}")
    gf, gi = got
    gen.expect(c, key + ":flag", gf, f.reshape(shape), det)
    c.check(gi.dtype.kind == "i" and gi.shape == shape, key + ":indextype", lambda: f"{gi.dtype} {gi.shape}; {det}")
    c.check(np.iinfo(gi.dtype).max >= m - 1, key + ":width", lambda: f"{gi.dtype} for {m} values; {det}")
    e = np.where(ix < 0, np.iinfo(gi.dtype).min, ix).astype(gi.dtype).reshape(shape)
    gen.expect(c, key + ":index", gi, e, det)
    c.seen("needles found", int(f.sum()))
    c.seen("needles absent", int((~f).sum()))


def options(c, m, distinct):
    hm = c.pick([1, 2, 2])
    r = c.rng.random()
    if r < 0.6:
        return hm, 0, "h0", False
    if r < 0.75:
        return hm, m + 5, "h+", False
    if r < 0.85:
        return hm, max(1, distinct), "hd", False
    h = int(c.pick([1, 7, 53, max(1, distinct // 2)]))
    return hm, h, "h-", h < distinct


def hinted(c, key, fn, a, b, hm, hint, may, det):
    try:
        return fn(a, b, hm, hint) if hint else fn(a, b, hm)
    except RuntimeError as e:
        c.check(may and ("infinite" in str(e)), key + ":raised", lambda: f"{e}; {det}")
        c.seen("declined small hints")
        return None


def ismember(c):
    n, m = sizes(c)
    kind = c.pick("nnnnnSU")
    nd, hs = draw(c, kind, n, m)
    f, ix = reference(nd, hs)
    (a, la), (b, lb) = lay(c, nd), lay(c, hs)
    hm, hint, hc, may = options(c, m, len(np.unique(hs)))
    shape = nd.shape
    if n and n % 6 == 0 and c.coin(0.2):
        a = nd.reshape(6, -1)
        la, shape = "2d", a.shape
        if c.coin():
            a, la = np.asfortranarray(a), "2dF"
    tag = gen.threads(c, rc)
    fn = c.pick([rc.IsMember32, rc.IsMember64])
    det = f"IsMember {a.dtype} {la} n={n} in {b.dtype} {lb} m={m} mode {hm} hint {hint} {tag}"
    c.sig("is", nd.dtype.str, hs.dtype.str if kind in "SU" else "", hm, hc, la, lb, cls(n), cls(m), tag)
    got = hinted(c, "ismember", fn, a, b, hm, hint, may, det)
    if got is not None:
        flags_and_index(c, "ismember", got, f, ix, m, shape, det)


def categorical(c):
    n, m = sizes(c)
    kind = c.pick("nnnSU")
    nd, hs = draw(c, kind, n, m)
    f, ix = reference(nd, hs)
    (a, la), (b, lb) = lay(c, nd), lay(c, hs)
    hm, hint, hc, may = options(c, m, len(np.unique(hs)))
    tag = gen.threads(c, rc)
    det = f"IsMemberCategorical {a.dtype} {la} n={n} in {b.dtype} {lb} m={m} mode {hm} hint {hint} {tag}"
    c.sig("cat", nd.dtype.str, hs.dtype.str if kind in "SU" else "", hm, hc, la, lb, cls(n), cls(m), tag)
    if nd.dtype.kind in "Mm":
        return  # not a documented type
    got = hinted(c, "categorical", rc.IsMemberCategorical, a, b, hm, hint, may, det)
    if got is None:
        return
    missed, gi = got
    c.check(missed == int((~f).any()), "categorical:missed", lambda: f"missed {missed}, {int((~f).sum())} absent; {det}")
    c.check(gi.dtype.kind == "i" and np.iinfo(gi.dtype).max >= m, "categorical:indextype", lambda: f"{gi.dtype}; {det}")
    gen.expect(c, "categorical:index", gi, (ix + 1).astype(gi.dtype), det)


def multikey(c):
    n, m = sizes(c)
    n, m = max(n, 1), max(m, 1)
    k = int(c.pick([1, 2, 2, 3, 4]))
    nds, hss, lays = [], [], []
    for _ in range(k):
        kind = c.pick("nnnSU")
        nd, hs = draw(c, kind, n, m)
        if nd.dtype.char in "Mm":
            nd, hs = nd.view("q"), hs.view("q")
        if kind in "SU":
            w = max(nd.dtype.itemsize, hs.dtype.itemsize) // (4 if kind == "U" else 1)
            nd, hs = nd.astype(f"{kind}{w}"), hs.astype(f"{kind}{w}")
        elif nd.dtype.kind == "f":
            for x in (nd, hs):
                x[(x != x) | (x == 0)] = 0.0
        nds.append(nd)
        hss.append(hs)
    if c.coin(0.7):  # whole rows from the haystack
        q = c.rng.random(n) < c.pick([0.1, 0.5, 1.0])
        r = c.rng.integers(0, m, int(q.sum()))
        for nd, hs in zip(nds, hss):
            nd[q] = hs[r]
    code_n, code_h = np.zeros(n, np.int64), np.zeros(m, np.int64)
    for nd, hs in zip(nds, hss):
        u, iv = np.unique(np.concatenate([nd, hs]), return_inverse=True)
        code_n, code_h = code_n * len(u) + iv[:n], code_h * len(u) + iv[n:]
        u, iv = np.unique(np.concatenate([code_n, code_h]), return_inverse=True)
        code_n, code_h = iv[:n], iv[n:]
    f, ix = reference(code_n, code_h)
    A, B = [], []
    for nd, hs in zip(nds, hss):
        (a, la), (b, lb) = lay(c, nd), lay(c, hs)
        A.append(a)
        B.append(b)
        lays += [la, lb]
    distinct = len(np.unique(code_h))
    _, hint, hc, may = options(c, m, distinct)
    tag = gen.threads(c, rc)
    det = f"MultiKeyIsMember32 {[str(x.dtype) for x in nds]} {lays} n={n} m={m} hint {hint} {tag}"
    c.sig("mk", tuple(x.dtype.str for x in nds), tuple(lays[:2]), hc, cls(n), cls(m), tag)
    got = rc.MultiKeyIsMember32((A,), (B,), hint)
    if got is None:
        c.check(may, "multikey:declined", lambda: det)
        c.seen("declined small hints")
        return
    flags_and_index(c, "multikey", got, f, ix, m, (n,), det)


def fixup(c):
    n, m = sizes(c)
    ua, ub = int(c.pick([1, 2, 5, 20, 100, 1000])), int(c.pick([1, 2, 5, 20, 100, 1000]))
    basea, baseb = c.pick([0, 1]), c.pick([0, 1])

    def bins(n, u, base):
        dt = np.dtype(c.pick([k for k in "bhiql" if np.iinfo(k).max >= u + base]))
        x = c.rng.integers(base, base + u, n) if c.coin(0.7) else c.rng.integers(base, base + max(1, u // 3), n)
        x = x.astype(dt)
        z = c.rng.random(n) < c.pick([0.0, 0.1])
        x[z] = c.pick([0, -1, np.iinfo(dt).min]) if base else c.pick([-1, np.iinfo(dt).min])
        return x

    A, B = bins(n, ua, basea), bins(m, ub, baseb)
    mp = np.full(ua, -1, np.int64)
    k = min(ua, ub)
    sel = c.rng.permutation(ua)[:k]
    mp[sel] = c.rng.permutation(ub)[:k]
    mp[c.rng.random(ua) < c.pick([0.0, 0.3, 1.0])] = -1
    first = np.full(ub, -1, np.int64)
    ok = np.flatnonzero(B >= baseb)
    u, i = np.unique(B[ok], return_index=True)
    first[u.astype(np.int64) - baseb] = ok[i]
    ix = np.full(n, -1, np.int64)
    v = A >= basea
    t = mp[A[v].astype(np.int64) - basea]
    ix[v] = np.where(t >= 0, first[np.maximum(t, 0)], -1)
    arg = np.where(mp < 0, np.iinfo("i").min, mp).astype("i")
    (a, la), (b, lb), (g, lg) = lay(c, A), lay(c, B), lay(c, arg)
    det = f"IsMemberCategoricalFixup {A.dtype} {la} n={n} base {basea} uniques {ua}; {B.dtype} {lb} m={m} base {baseb} uniques {ub}; map {lg}"
    c.sig("fix", A.dtype.char, B.dtype.char, basea, baseb, la, lb, lg, cls(n), cls(m))
    got = rc.IsMemberCategoricalFixup(a, b, g, ub, basea, baseb)
    flags_and_index(c, "fixup", got, ix >= 0, ix, m, (n,), det)


def full_table(c):
    """A haystack that fills the hash table completely: absent needles must still be reported absent."""
    hm = c.pick([1, 2])
    cat = c.coin(0.4)
    dt = np.dtype(c.pick([k for k in "iqIQfd"] if hm == 1 else ["i", "I", "q", "Q", "f", "d"]))
    m = c.pick(PRIMES[:6]) if hm == 1 else 65536
    n = int(c.pick([10, 1000, 40000, 100000]))
    if c.flavour != "rel" and hm == 2:
        n = 200
    if dt.kind == "f" and hm == 2:
        return  # covered by integers
    hs = (np.arange(m) * c.pick([1, 3])).astype(dt)
    nd = c.rng.choice(hs, n)
    q = c.rng.random(n) < c.pick([0.001, 0.5])
    if hm == 2 and q.sum() > 60:
        q[np.flatnonzero(q)[60:]] = False  # a miss walks the whole table
    nd[q] = dt.type(10 ** 6 + 7)
    f, ix = reference(nd, hs)
    tag = gen.threads(c, rc)
    fn = rc.IsMemberCategorical if cat else rc.IsMember32
    det = f"{fn.__name__} {dt} n={n} in a full table of {m}, mode {hm} {tag}"
    c.sig("full", cat, dt.char, hm, m, n, tag)
    got = hinted(c, "full", fn, nd, hs, hm, 1, True, det)
    if got is None:
        return
    if cat:
        gen.expect(c, "full:index", got[1], (ix + 1).astype(got[1].dtype), det)
    else:
        flags_and_index(c, "full", got, f, ix, m, (n,), det)


def crowded(c):
    """Strings that extend one another in a nearly full table, so that a probe compares a needle with its own extension."""
    m = int(c.pick([58000, 62000, 64000])) if c.flavour == "rel" else 800
    kind = c.pick("SU")
    w = int(c.pick([4, 5, 8, 9]))
    chars = c.rng.integers(97, 123, (m, w + 1)).astype(np.uint8 if kind == "S" else np.uint32)
    if c.coin(0.3):
        chars[c.rng.random(m) < 0.5, w] = 0
    hs = chars.view(f"{kind}{w + 1}").reshape(-1)
    nd = hs.astype(f"{kind}{w}")
    k = c.pick(["n", "n", "wide", "swap"])
    if k == "wide":
        nd = nd.astype(f"{kind}{w + 1}")
    elif k == "swap":
        nd, hs = hs, nd
    f, ix = reference(nd, hs)
    cat = c.coin(0.4)
    tag = gen.threads(c, rc)
    fn = rc.IsMemberCategorical if cat else rc.IsMember32
    det = f"{fn.__name__} {nd.dtype} in {hs.dtype} m={m}, table of 65536 {tag}"
    c.sig("crowd", cat, kind, w, k, m, tag)
    got = hinted(c, "crowded", fn, nd, hs, 2, 1, False, det)
    if cat:
        gen.expect(c, "crowded:index", got[1], (ix + 1).astype(got[1].dtype), det)
    else:
        flags_and_index(c, "crowded", got, f, ix, m, nd.shape, det)


FAMILIES = [("crowded", 0.4, crowded), ("ismember", 10, ismember), ("categorical", 5, categorical), ("multikey", 5, multikey), ("fixup", 3, fixup), ("full_table", 0.4, full_table)]
