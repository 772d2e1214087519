import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C12"
FLAVOURS = {"quick": {"rel": 30000, "asan": 5000}, "thorough": {"rel": 400000, "asan": 60000}}
RULE = ("One case draws a bin array (signed integer dtype, number of bins, distribution, out-of-range bins where the call allows them, layout), a "
        "filter and a threading mode, calls one bookkeeping function and compares every defined output element with a numpy reference. A signature "
        "is (function, dtype, options, layouts, bins class, length class).")
ASSUMPTIONS = ["bin arrays are signed integers, one-dimensional",
               "with pack=True only the first sum(counts) elements of iGroup are defined",
               "CombineAccum2Filter gets indexes within its maxima; GroupFromBinCount gets the counts of its key",
               "GroupByPack32 with a next array needs groups numbered in order of first appearance"]

SI = [np.dtype(k) for k in "bhiqlq"]
LAY = ["c", "c", "c", "off", "mis", "step", "neg", "ro"]
MIN64 = np.iinfo("q").min


def cls(n):
    return "L" if n > 32768 else "M" if n >= 100 else n // 16


def bins(c, n, lo, wild=True, umax=None):
    """(bin array, number u of bins): mostly in lo..u+lo-1; with wild, also outside."""
    dt = c.pick(SI)
    top = min(np.iinfo(dt).max + 1 - lo, 200000)
    u = int(min(top, c.pick([1, top if dt.itemsize < 4 else 3, 2, 5, 30, 100, 126, 1000, max(1, n // 60), max(1, n // 3), max(1, n), 2 * n + 1])))
    if umax:
        u = min(u, umax)
    mode = c.pick(["uni", "uni", "skew", "sorted", "one", "runs"])
    if mode == "uni":
        x = c.rng.integers(0, u, n)
    elif mode == "skew":
        x = (u * c.rng.random(n) ** 4).astype("q")
    elif mode == "sorted":
        x = np.sort(c.rng.integers(0, u, n))
    elif mode == "one":
        x = np.full(n, c.rng.integers(0, u))
    else:
        x = np.repeat(c.rng.integers(0, u, n), 5)[:n]
    x = x + lo
    if lo and c.coin(0.5):
        x[c.rng.random(n) < c.pick([0.02, 0.4])] = 0
    tag = ""
    if wild and c.coin(0.4):
        ii = np.iinfo(dt)
        e = [v for v in (-1, ii.min, ii.min + 1, ii.max, u + lo, u + lo + 1, -2) if ii.min <= v <= ii.max]
        m = c.rng.random(n) < c.pick([0.02, 0.3])
        x[m] = np.array(e)[c.rng.integers(0, len(e), int(m.sum()))]
        tag = "w"
    return x.astype(dt), u, tag


def order(x, lo, hi):
    """(rows with lo <= x < hi by bin then row, counts per bin, start per bin)"""
    rows = np.flatnonzero((x >= lo) & (x < hi))
    b = x[rows].astype("q") - lo
    cnt = np.bincount(b, minlength=hi - lo)
    return rows[np.argsort(b, kind="stable")], cnt, np.r_[0, np.cumsum(cnt)[:-1]]


def filt(c, n, none=0.4):
    if c.coin(none):
        return None, None, "-"
    f = c.rng.random(n) < c.pick([0.0, 0.02, 0.5, 0.5, 0.98, 1.0])
    l = c.pick(["c", "c", "off", "step", "neg", "ro"])
    return f, gen.lay(c, f, l), l


def bincount(c):
    n = gen.length(c, big=0.45)
    x, u, w = bins(c, n, 0)
    if c.coin(0.2):  # more bins than the key uses, or than its dtype can name
        u = int(c.pick([u + 1, 2 * u, 128, 300, 32768, 70000]))
    l = c.pick(LAY)
    xl = gen.lay(c, x, l)
    pack = c.coin(0.6)
    gen.threads(c, rc)
    c.sig("bincount", x.dtype.char, pack, l, cls(n), u > 100, w)
    det = f"{n} rows {x.dtype.char} {l} {u} bins {w} pack {pack}"
    c.sample("BinCount " + det)
    if not n:
        try:
            rc.BinCount(xl, u, pack=pack)
        except ValueError:
            return
        c.fail("bincount:empty", det)
        return
    o, cnt, start = order(x, 0, u)
    r = rc.BinCount(xl, u, pack=True) if pack else rc.BinCount(xl, u)
    if not pack:
        gen.expect(c, "bincount", r, cnt.astype("i"), det)
        return
    gen.expect(c, "bincount:count", r[0], cnt.astype("i"), det)
    gen.expect(c, "bincount:first", r[2], start.astype("i"), det)
    c.check(r[1].dtype == "i" and len(r[1]) == n, "bincount:shape", lambda: det)
    gen.expect(c, "bincount:group", r[1][: len(o)], o.astype("i"), det)
    c.seen("rows packed", len(o))


def frombincount(c):
    n = gen.length(c, lo=1, big=0.45)
    x, u, w = bins(c, n, 0, wild=False)
    l = c.pick(LAY)
    o, cnt, start = order(x, 0, u)
    gen.threads(c, rc)
    c.sig("frombincount", x.dtype.char, l, cls(n), u > 100)
    det = f"{n} rows {x.dtype.char} {l} {u} bins"
    r = rc.GroupFromBinCount(gen.lay(c, x, l), gen.lay(c, cnt.astype("i"), c.pick(["c", "step", "ro"])))
    gen.expect(c, "frombincount:group", r[0], o.astype("i"), det)
    gen.expect(c, "frombincount:first", r[1], start.astype("i"), det)
    c.seen("rows packed", n)


def inext(c):
    x, u, w = bins(c, gen.length(c), c.pick([0, 1]), umax=None)
    n = len(x)
    if x.dtype.itemsize < 4:  # links are row numbers of the key's dtype
        n = min(n, np.iinfo(x.dtype).max)
        x = x[:n]
    l = c.pick(LAY)
    mode = c.pick([0, 1])
    c.sig("inext", x.dtype.char, l, mode, cls(n), w)
    det = f"{n} rows {x.dtype.char} {l} {u} bins {w} mode {mode}"
    got = rc.MakeiNext(gen.lay(c, x, l), u, mode)
    o, cnt, start = order(x, 0, u + 1)
    iv = gen.inv(x.dtype)
    want = np.full(n, iv, x.dtype)
    same = x[o[1:]] == x[o[:-1]]
    if mode:
        want[o[1:][same]] = o[:-1][same]
    else:
        want[o[:-1][same]] = o[1:][same]
    gen.expect(c, "inext", got, want, det)
    c.seen("links", int(same.sum()))


def pack32(c):
    n = gen.length(c)
    form = c.pick(["none", "none", "next"])
    if form == "none":
        x, u, w = bins(c, n, 1, wild=c.coin(0.1), umax=max(1, 4 * n))
        nx = None
        nu = u
    else:
        base = c.rng.integers(0, max(1, int(c.pick([1, 5, 100, n]))), n).astype("i")
        f, fl, _ = filt(c, n, 0.5)
        r = rc.MultiKeyGroupBy32Super([base], 0, f, 2)
        x, nx, nu, w = r[0], r[1], len(r[2]), ""
    l = c.pick(LAY)
    xl = gen.lay(c, x, l)
    c.sig("pack32", form, x.dtype.char, l, cls(n), w)
    det = f"{n} rows {x.dtype.char} {l} {nu} bins {w} {form}"
    bad = bool(((x < 0) | (x > nu)).any())
    try:
        ig, fi, cn = rc.GroupByPack32(xl, gen.lay(c, nx, c.pick(["c", "step"])) if nx is not None else None, nu)
    except ValueError:
        c.check(bad, "pack32:raised", lambda: det)
        c.seen("declined bad bins")
        return
    c.check(not bad, "pack32:bad", lambda: det)
    if bad:
        return
    o, cnt, start = order(x, 0, nu + 1)
    gen.expect(c, "pack32:count", cn, cnt.astype("i"), det)
    c.check(len(ig) == n and len(fi) == nu + 1, "pack32:shape", lambda: det)
    # the slices may come in any order, but must be disjoint and in bounds, and each must list its bin's rows in order
    use = np.flatnonzero(cnt)
    s = fi[use].astype("q")
    c.check(bool((s >= 0).all() and (s + cnt[use] <= n).all()), "pack32:first", lambda: det)
    idx = np.repeat(s, cnt[use]) + (np.arange(int(cnt.sum())) - np.repeat(start[use], cnt[use]))
    gen.expect(c, "pack32:group", ig[idx] if len(idx) else ig[:0], o.astype("i"), det)
    c.seen("bins packed", len(use))


def ifirst(c):
    n = gen.length(c)
    x, u, w = bins(c, n, 1)
    l = c.pick(LAY)
    f, fl, ft = filt(c, n)
    last = c.pick([0, 1])
    gen.threads(c, rc)
    c.sig("ifirst", x.dtype.char, l, ft, last, cls(n), w)
    det = f"{n} rows {x.dtype.char} {l} {u} bins {w} filter {ft} last {last}"
    got = rc.MakeiFirst(gen.lay(c, x, l), u, fl, last)
    want = np.full(u + 1, MIN64)
    m = (x > 0) & (x <= u)
    if f is not None:
        m &= f
    rows = np.flatnonzero(m)
    if not last:
        rows = rows[::-1]
    want[x[rows].astype("q")] = rows
    gen.expect(c, "ifirst", got, want, det)
    c.seen("bins with a first row", int((want != MIN64).sum()))


def cfilter(c):
    n = gen.length(c)
    x, u, w = bins(c, n, 1)
    l = c.pick(LAY)
    f, fl, ft = filt(c, n, 0)
    gen.threads(c, rc)
    c.sig("cfilter", x.dtype.char, l, ft, cls(n))
    det = f"{n} rows {x.dtype.char} {l} filter {ft}"
    gen.expect(c, "cfilter", rc.CombineFilter(gen.lay(c, x, l), fl), np.where(f, x, x.dtype.type(0)), det)
    c.seen("rows filtered", int((~f).sum()))


def accum1(c):
    n = gen.length(c)
    x, u, w = bins(c, n, 1)
    l = c.pick(LAY)
    f, fl, ft = filt(c, n)
    gen.threads(c, rc)
    c.sig("accum1", x.dtype.char, l, ft, cls(n), w)
    det = f"{n} rows {x.dtype.char} {l} {u} bins {w} filter {ft}"
    r = rc.CombineAccum1Filter(gen.lay(c, x, l), u, fl)
    m = (x > 0) & (x <= u)
    if f is not None:
        m &= f
    rows = np.flatnonzero(m)
    want = np.zeros(n, x.dtype)
    vals, fi, inv = np.unique(x[rows], return_index=True, return_inverse=True)
    o = np.argsort(fi)
    rank = np.empty(len(o), "q")
    rank[o] = np.arange(len(o))
    want[rows] = rank[inv.ravel()] + 1
    gen.expect(c, "accum1:index", r[0], want, det)
    gen.expect(c, "accum1:first", r[1], rows[fi[o]].astype("i"), det)
    c.check(r[2] == len(vals), "accum1:count", lambda: f"{r[2]} != {len(vals)}; {det}")
    c.seen("bins renumbered", len(vals))


def accum2(c):
    n = gen.length(c)
    a, u, _ = bins(c, n, 1, wild=False)
    b, v, _ = bins(c, n, 1, wild=False)
    if c.coin(0.3):
        b = b.astype(a.dtype) if v <= np.iinfo(a.dtype).max else b
    la, lb = c.pick(LAY), c.pick(LAY)
    f, fl, ft = filt(c, n)
    gen.threads(c, rc)
    c.sig("accum2", a.dtype.char, b.dtype.char, la, lb, ft, cls(n), u, v)
    det = f"{n} rows {a.dtype.char} {b.dtype.char} {la} {lb} max {u} {v} filter {ft}"
    r = rc.CombineAccum2Filter(gen.lay(c, a, la), gen.lay(c, b, lb), u, v, fl)
    want = b.astype("q") * (u + 1) + a
    if f is not None:
        want = np.where(f, want, 0)
    p = (u + 1) * (v + 1)
    od = "b" if p < 120 else "h" if p < 32000 else "i" if p < 2000000000 else "q"
    gen.expect(c, "accum2", r[0], want.astype(od), det)
    c.seen("rows combined", n)


def reindex(c):
    """Partitions of rows, each with its own local numbering, renumbered through each partition's slice of uikey."""
    p = int(c.pick([1, 2, 3, 10, 40]))
    n = gen.length(c)
    nu = int(c.rng.integers(0, 60 * p))
    ic = np.sort(np.r_[c.rng.integers(0, n + 1, p - 1), n]).astype("q")
    uc = np.sort(np.r_[c.rng.integers(0, nu + 1, p - 1), nu]).astype("q")
    dt = np.dtype("i")
    uikey = c.rng.integers(0, 1 << 30, nu).astype("i")
    us, is_ = np.r_[0, uc[:-1]], np.r_[0, ic[:-1]]
    x = np.zeros(n, dt)
    want = np.zeros(n, dt)
    wild = c.coin(0.3)
    for t in range(p):
        m = int(ic[t] - is_[t])
        k = int(uc[t] - us[t])
        y = c.rng.integers(0, k + 1, m)
        if wild:
            y[c.rng.random(m) < 0.05] = int(c.pick([-1, nu + 1, 2 ** 31 - 1, -2 ** 31]))
        ok = (y > 0) & (y <= nu - us[t])
        z = np.zeros(m, "q")
        z[ok] = uikey[us[t] + y[ok] - 1]
        x[is_[t]:ic[t]] = y
        want[is_[t]:ic[t]] = z
    gen.threads(c, rc)
    c.sig("reindex", p, wild, cls(n))
    det = f"{n} rows {p} partitions cutoffs {ic.tolist()} {uc.tolist()} wild {wild}"
    got = x.copy()
    rc.ReIndexGroups(got, gen.lay(c, uikey, c.pick(["c", "step", "ro"])), gen.lay(c, uc, c.pick(["c", "step"])), gen.lay(c, ic, c.pick(["c", "step"])))
    gen.expect(c, "reindex", got, want, det)
    c.seen("partitions renumbered", p)


def shuffle(c):
    n = gen.length(c)
    dt = np.dtype(c.pick("iq"))
    x = c.rng.permutation(n).astype(dt)
    l = c.pick(LAY)
    gen.threads(c, rc)
    c.sig("shuffle", dt.char, l, cls(n))
    want = np.empty(n, dt)
    want[x] = np.arange(n)
    gen.expect(c, "shuffle", rc.ReverseShuffle(gen.lay(c, x, l)), want, f"{n} rows {dt.char} {l}")
    c.seen("shuffled rows", n)


FAMILIES = [("bincount", 5, bincount), ("frombincount", 3, frombincount), ("inext", 3, inext), ("pack32", 4, pack32), ("ifirst", 3, ifirst),
            ("cfilter", 2, cfilter), ("accum1", 3, accum1), ("accum2", 4, accum2), ("reindex", 2, reindex), ("shuffle", 1, shuffle)]
