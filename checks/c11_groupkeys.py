import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C11"
FLAVOURS = {"quick": {"rel": 7000, "asan": 1500}, "thorough": {"rel": 100000, "asan": 20000}}
RULE = ("One case draws one to four key columns (number of distinct rows, colliding values, strings, dates, layouts), a filter, a size hint, a "
        "hash mode, cutoffs and a threading mode, and compares group numbers, first rows, counts and links with a sort-based grouping of the "
        "same bytes. A signature is (operation, columns' kinds, hash mode, hint class, filter, layouts, length class).")
ASSUMPTIONS = ["keys are equal when their bytes are: 0.0 and -0.0 are different keys, NaNs of the same bits are one key",
               "a call may fail when its size hint is smaller than the number of distinct keys",
               "MultiKeyHash and MultiKeyRolling take no filter; a rolling key is at most 16 bytes wide",
               "long double columns (padding bytes), float16, dates and records are not supported as keys"]

NUM = [np.dtype(k) for k in "?bhiqBHIQlLfdFfd"] + [np.dtype("D"), np.dtype("i"), np.dtype("q")]
LAY = ["c", "c", "c", "c", "off", "mis", "step", "neg", "ro"]
PRIMES = [53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317]


def column(c, n, share):
    """A key column of n rows; share is how many distinct values to aim at."""
    r = c.rng.random()
    if r < 0.3:
        kind = c.pick("SSU")
        return gen.strings(c, kind, n, pool=max(1, share)), kind
    dt = c.pick(NUM)
    mode = c.pick(["gen", "dense", "collide", "prime", "seq"])
    code = c.rng.integers(0, max(1, share), n)
    if mode == "gen" or dt.kind in "b":
        base = np.dtype("q") if dt.kind in "mM" else dt
        v = gen.values(c, base, max(1, min(share, n)))
        x = v[code % len(v)] if len(v) else gen.values(c, base, n)
        return (x.view(dt) if dt.kind in "mM" else x), dt.char
    if mode == "collide":
        code = code << int(c.rng.integers(0, 40))
    elif mode == "prime":
        code = code * c.pick(PRIMES)
    elif mode == "seq":
        code = np.arange(n) % max(1, share)
    with np.errstate(all="ignore"):
        if dt.kind in "mM":
            return code.astype("q").view(dt), dt.char
        return code.astype("q").astype(dt), dt.char


def rowids(cols):
    """(group number per row in order of first appearance from 0, first row per group) of the rows' bytes."""
    n = len(cols[0])
    code = np.zeros(n, "q")
    for x in cols:
        x = np.ascontiguousarray(x)
        w = x.dtype.itemsize
        b = x.view(np.uint8).reshape(n, w) if w else np.zeros((n, 1), np.uint8)
        p = -b.shape[1] % 8
        b = np.ascontiguousarray(np.concatenate([b, np.zeros((n, p), np.uint8)], 1)).view("Q") if n else np.zeros((0, 1), "Q")
        for k in range(b.shape[1]):
            u = np.unique(b[:, k], return_inverse=True)[1].ravel()
            code = np.unique(code * (u.max() + 1 if n else 1) + u, return_inverse=True)[1].ravel()
    u, first, inv = np.unique(code, return_index=True, return_inverse=True)
    o = np.argsort(first, kind="stable")
    rank = np.empty(len(o), "q")
    rank[o] = np.arange(len(o))
    return rank[inv.ravel()], first[o]


def links(ids, n):
    """(previous, next, running count, count, first, last) of rows with equal ids; -1 where there is none."""
    o = np.argsort(ids, kind="stable")
    s = ids[o]
    inv = -1
    same = s[1:] == s[:-1]
    prev = np.full(n, inv)
    nxt = np.full(n, inv)
    prev[o[1:][same]] = o[:-1][same]
    nxt[o[:-1][same]] = o[1:][same]
    start = np.flatnonzero(np.r_[True, ~same]) if n else np.zeros(0, "q")
    cnt = np.diff(np.r_[start, n])
    run = np.empty(n, "q")
    run[o] = np.arange(n) - np.repeat(start, cnt) + 1
    tot = np.empty(n, "q")
    tot[o] = np.repeat(cnt, cnt)
    fst = np.empty(n, "q")
    fst[o] = np.repeat(o[start], cnt)
    last = np.empty(n, "q")
    last[o] = np.repeat(o[start + cnt - 1], cnt) if n else 0
    return prev, nxt, run, tot, fst, last


def setup(c, kmax=4, width=None):
    n = gen.length(c)
    k = int(c.pick([1, 1, 1, 2, 2, 3, 4][: 3 + 2 * (kmax > 1) + 2 * (kmax > 2)]))
    share = int(c.pick([1, 2, 7, 60, 1000, max(1, n // 3), max(1, 2 * n)]))
    cols, tags = [], []
    for _ in range(k):
        for _ in range(30):
            x, t = column(c, n, max(1, share if k == 1 or c.coin(0.3) else int(round(share ** (1 / k))) + 1))
            if width is None or x.dtype.itemsize * k <= width:
                break
        else:
            x, t = c.rng.integers(0, max(1, share), n).astype("i"), "i"
        cols.append(x)
        tags.append(t)
    lays = [c.pick(LAY) for _ in cols]
    laid = [gen.lay(c, x, l) for x, l in zip(cols, lays)]
    return n, cols, laid, "".join(tags), ",".join(lays)


def filt(c, n):
    r = c.rng.random()
    if r < 0.5:
        return None, None, "-"
    f = c.rng.random(n) < c.pick([0.0, 0.02, 0.5, 0.5, 0.98, 1.0])
    l = c.pick(["c", "c", "off", "step", "neg", "ro"])
    return f, gen.lay(c, f, l), l


def hint(c, n, distinct):
    r = c.rng.random()
    if r < 0.6:
        return 0, "0"
    if r < 0.75:
        return n + 3, "+"
    if r < 0.88:
        return max(1, distinct), "d"
    return int(c.pick([1, 9, max(1, distinct // 2), max(1, distinct // 8)])), "-"


def attempt(c, key, fn, small, det):
    try:
        r = fn()
    except (ValueError, RuntimeError) as e:
        c.check(small, key + ":raised", lambda: f"{type(e).__name__}: {e}; {det}")
        c.seen("declined small hints")
        return None
    if r is None and small:
        c.seen("declined small hints")
    c.check(r is not None or small, key + ":none", lambda: det)
    return r


def kept(ids, first, f):
    """Renumbers groups over the kept rows only: (1-based numbers with 0 for filtered rows, first kept rows)."""
    n = len(ids)
    if f is None:
        return ids + 1, first
    rows = np.flatnonzero(f)
    out = np.zeros(n, "q")
    if not len(rows):
        return out, rows
    u, fi, inv = np.unique(ids[rows], return_index=True, return_inverse=True)
    o = np.argsort(fi)
    rank = np.empty(len(o), "q")
    rank[o] = np.arange(len(o))
    out[rows] = rank[inv.ravel()] + 1
    return out, rows[fi[o]]


def groupby(c):
    n, cols, laid, tags, lays = setup(c)
    f, fl, ftag = filt(c, n)
    ids, first = rowids(cols)
    want, wfirst = kept(ids, first, f)
    h, ht = hint(c, n, len(wfirst))
    mode = c.pick([1, 2, 2])
    gen.threads(c, rc)
    c.sig("groupby", tags, mode, ht, ftag, lays, cls(n))
    det = f"{n} rows {tags} {lays} hint {h} mode {mode} filter {ftag} {len(wfirst)} groups"
    key = "groupby:" + ("1" if len(cols) == 1 else "n")
    r = attempt(c, key, lambda: rc.MultiKeyGroupBy32(list(laid), h, fl, mode), 0 < h < len(wfirst), det)
    c.sample(det)
    if r is None:
        return
    c.check(r[2] == len(wfirst), key + ":count", lambda: f"{r[2]}; {det}")
    gen.expect(c, key + ":ikey", r[0], want.astype("i"), det)
    gen.expect(c, key + ":first", r[1], wfirst.astype("i"), det)
    c.seen("groups", len(wfirst))
    c.seen("rows grouped", n)


def cutoffs(c):
    n, cols, laid, tags, lays = setup(c)
    if not n:
        return
    f, fl, ftag = filt(c, n)
    k = int(c.pick([1, 2, 3, 7, 20]))
    cuts = np.sort(np.r_[c.rng.integers(0, n + 1, k - 1), n]).astype("q")
    ids, first = rowids(cols)
    want, firsts, uniq = np.zeros(n, "q"), [], []
    for lo, hi in zip(np.r_[0, cuts[:-1]], cuts):
        p = ids[lo:hi]
        u, fi, inv = np.unique(p, return_index=True, return_inverse=True)
        o = np.argsort(fi)
        rank = np.empty(len(o), "q")
        rank[o] = np.arange(len(o))
        w, wf = kept(rank[inv.ravel()], fi[o], None if f is None else f[lo:hi])
        want[lo:hi] = w
        firsts.append(wf)
        uniq.append(len(wf))
    h, ht = hint(c, n, max(uniq))
    mode = c.pick([1, 2, 2])
    gen.threads(c, rc)
    c.sig("cutoffs", tags, mode, ht, ftag, lays, cls(n), k)
    det = f"{n} rows {tags} {lays} hint {h} mode {mode} filter {ftag} cutoffs {cuts.tolist()}"
    r = attempt(c, "cutoffs", lambda: rc.MultiKeyGroupBy32(list(laid), h, fl, mode, cutoffs=gen.lay(c, cuts, c.pick(["c", "ro"]))), 0 < h < max(uniq), det)
    if r is None:
        return
    c.check(r[2] == sum(uniq), "cutoffs:count", lambda: f"{r[2]}; {det}")
    gen.expect(c, "cutoffs:ikey", r[0], want.astype("i"), det)
    gen.expect(c, "cutoffs:first", r[1][0], np.concatenate(firsts).astype("i"), det)
    gen.expect(c, "cutoffs:uniques", r[1][1], np.cumsum(uniq).astype("q"), det)
    c.seen("partitions", k)


def super_(c):
    n, cols, laid, tags, lays = setup(c)
    f, fl, ftag = filt(c, n)
    ids, first = rowids(cols)
    want, wfirst = kept(ids, first, f)
    h, ht = hint(c, n, len(wfirst))
    gen.threads(c, rc)
    c.sig("super", tags, ht, ftag, lays, cls(n))
    det = f"{n} rows {tags} {lays} hint {h} filter {ftag} {len(wfirst)} groups"
    r = attempt(c, "super", lambda: rc.MultiKeyGroupBy32Super(list(laid), h, fl, 2), 0 < h < len(wfirst), det)
    if r is None:
        return
    gen.expect(c, "super:ikey", r[0], want.astype("i"), det)
    gen.expect(c, "super:next", r[1], links(want, n)[1].astype("i"), det)
    gen.expect(c, "super:first", r[2], wfirst.astype("i"), det)
    gen.expect(c, "super:count", r[3], np.bincount(want, minlength=len(wfirst) + 1)[1:].astype("i"), det)


def unique(c):
    n, cols, laid, tags, lays = setup(c)
    f, fl, ftag = filt(c, n)
    ids, first = rowids(cols)
    want, wfirst = kept(ids, first, f)
    h, ht = hint(c, n, len(wfirst))
    gen.threads(c, rc)
    c.sig("unique", tags, ht, ftag, lays, cls(n))
    det = f"{n} rows {tags} {lays} hint {h} filter {ftag} {len(wfirst)} groups"
    r = attempt(c, "unique", lambda: rc.MultiKeyUnique32(list(laid), h, fl) if fl is not None else rc.MultiKeyUnique32(list(laid), h), 0 < h < len(wfirst), det)
    if r is None:
        return
    gen.expect(c, "unique:first", r[0], wfirst.astype("i"), det)
    gen.expect(c, "unique:count", r[1], np.bincount(want, minlength=len(wfirst) + 1)[1:].astype("i"), det)


def mkhash(c):
    n, cols, laid, tags, lays = setup(c)
    ids, first = rowids(cols)
    h, ht = hint(c, n, len(first))
    gen.threads(c, rc)
    c.sig("hash", tags, ht, lays, cls(n))
    det = f"{n} rows {tags} {lays} hint {h} {len(first)} groups"
    r = attempt(c, "hash", lambda: rc.MultiKeyHash(list(laid), h), 0 < h < len(first), det)
    if r is None:
        return
    prev, nxt, run, tot, fst, last = links(ids, n)
    for name, got, exp in zip(("index", "running", "size", "prev", "next", "first", "last"), r, (ids + 1, run, tot, prev, nxt, fst, last)):
        gen.expect(c, "hash:" + name, got, exp.astype("i"), det)


def rolling(c):
    """Feeds one long key column in pieces; the numbers and running counts continue from piece to piece."""
    n, cols, laid, tags, lays = setup(c, kmax=2, width=16)
    width = sum(x.dtype.itemsize for x in cols)
    ids, first = rowids(cols)
    h, ht = hint(c, n, len(first))
    cuts = np.sort(np.r_[0, c.rng.integers(0, n + 1, int(c.pick([0, 1, 4]))), n])
    run = links(ids, n)[2]
    gen.threads(c, rc)
    c.sig("rolling", tags, ht, lays, cls(n), len(cuts))
    det = f"{n} rows {tags} {lays} hint {h} pieces {cuts.tolist()} {len(first)} keys"
    ptr = None
    hh = max(1, h or max(n, 1))
    small = hh < len(first)
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        keys = ([x[lo:hi] for x in laid],)
        r = attempt(c, "rolling", lambda: rc.MultiKeyRolling(keys, hh) if ptr is None else rc.MultiKeyRolling(keys, 0, ptr), small or width > 16, det)
        if r is None:
            break
        c.check(width <= 16, "rolling:wide", lambda: det)
        ptr = r[3]
        gen.expect(c, "rolling:index", r[0], ids[lo:hi], det)
        gen.expect(c, "rolling:running", r[1], run[lo:hi], det)
        c.check(r[2] == (ids[:hi].max() + 1 if hi else 0), "rolling:uniques", lambda: f"{r[2]}; {det}")
        c.seen("rolled pieces")
    if ptr is not None:
        rc.MultiKeyRolling(([np.zeros(1, "i")],), -1, ptr)


def crowded(c):
    """A table of 65536 slots filled to the brim: long probe chains, wrap-around, and one key too many."""
    n = int(c.pick([60000, 65000, 65530, 65535, 65536, 65537, 66000]))
    dt = np.dtype(c.pick("iIqQfdS"))
    vals = c.rng.permutation(n * 3)[:n]
    x = np.array([b"%d" % v for v in vals], "S7") if dt.kind == "S" else vals.astype(dt)
    x = np.concatenate([x, x[c.rng.integers(0, n, 2000)]])
    cols = [x] if c.coin(0.6) else [x, (np.arange(len(x)) * 0).astype("h")]
    op = c.pick(["groupby", "super", "unique", "hash"])
    h = int(c.pick([1, 100, 32768]))
    gen.threads(c, rc)
    c.sig("crowded", op, dt.char, len(cols), n, h)
    det = f"{op} {n} distinct {dt.char} in {len(cols)} columns, hint {h}"
    ids, first = rowids(cols)
    small = n > 65536
    call = {"groupby": lambda: rc.MultiKeyGroupBy32(cols, h, None, 2), "super": lambda: rc.MultiKeyGroupBy32Super(cols, h, None, 2),
            "unique": lambda: rc.MultiKeyUnique32(cols, h), "hash": lambda: rc.MultiKeyHash(cols, h)}[op]
    r = attempt(c, "crowded:" + op, call, small, det)
    c.seen("tables filled past 90%")
    if r is None:
        return
    c.check(not small, "crowded:toomany", lambda: det)
    if op != "unique":
        gen.expect(c, f"crowded:{op}:ikey", r[0], (ids + 1).astype("i"), det)
    if op != "hash":
        gen.expect(c, f"crowded:{op}:first", r[0 if op == "unique" else 1 if op == "groupby" else 2], first.astype("i"), det)


def cls(n):
    return "L" if n > 32768 else "M" if n >= 100 else n // 16


FAMILIES = [("groupby", 10, groupby), ("cutoffs", 3, cutoffs), ("super", 3, super_), ("unique", 4, unique), ("mkhash", 3, mkhash), ("rolling", 3, rolling),
            ("crowded", 0.4, crowded)]
