import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C13"
FLAVOURS = {"quick": {"rel": 9000, "asan": 1500}, "thorough": {"rel": 150000, "asan": 20000}}
RULE = ("One case draws a group assignment (key dtype, number of groups, empty groups, filtered rows), value columns (dtype, regime, invalids, "
        "layouts), a range of bins and one function per column, and compares every defined element of the results with a per-group numpy "
        "computation in wider precision. A signature is (call, functions, dtypes, key dtype, bin range, groups class, length class).")
ASSUMPTIONS = ["only bins from binLow up to binHigh are defined in the results; rolling results are defined for the rows of the bins in range",
               "sums and means may differ from the reference by rounding in their accumulation precision (float32 columns accumulate in float64)",
               "an empty group sums to 0; its mean, minimum, maximum, first, last, median are invalid; var and std need two values",
               "integer columns of median and mode, and columns of the rolling functions that do not skip invalids, hold no invalid values",
               "trimmed means are checked for floating-point columns only"]

F32 = {0: "sum", 1: "mean", 2: "min", 3: "max", 4: "var", 5: "std", 50: "nansum", 51: "nanmean", 52: "nanmin", 53: "nanmax", 54: "nanvar", 55: "nanstd"}
PACK = {100: "first", 101: "nth", 102: "last", 103: "median", 104: "mode", 105: "trimbr", 106: "quantile"}
ROLL = {200: "rsum", 201: "rnansum", 202: "rdiff", 203: "rshift", 204: "rcount", 205: "rmean", 206: "rnanmean", 207: "rquantile"}
LAY = ["c", "c", "c", "c", "off", "mis", "step", "neg", "ro"]
KEYS = [np.dtype(k) for k in "bhiiqlq"]
DT = [np.dtype(k) for k in "?bhiqBHIQlLfdfd"]
E9 = 10 ** 9


def cls(n):
    return "L" if n > 65536 else "l" if n > 32768 else "M" if n >= 100 else n // 16


def grouping(c, kinds=KEYS, big=0.4):
    """(rows, key array with bins 0..u, u)"""
    n = gen.length(c, lo=1, big=big)
    dt = c.pick(kinds)
    u = int(min(np.iinfo(dt).max, c.pick([1, 2, 3, 7, 40, 126, 1000, max(1, n // 12), max(1, n // 3), n, 2 * n + 5])))
    mode = c.pick(["uni", "uni", "skew", "sorted", "one", "part"])
    if mode == "uni":
        x = c.rng.integers(0, u, n)
    elif mode == "skew":
        x = (u * c.rng.random(n) ** 4).astype("q")
    elif mode == "sorted":
        x = np.sort(c.rng.integers(0, u, n))
    elif mode == "one":
        x = np.full(n, c.rng.integers(0, u))
    else:  # most groups empty
        x = c.rng.integers(0, u, max(1, u // 8))[c.rng.integers(0, max(1, u // 8), n)]
    x = x + 1
    if c.coin(0.4):
        x[c.rng.random(n) < c.pick([0.02, 0.5, 1.0])] = 0
    return n, x.astype(dt), u


def column(c, n, fn, dt=None):
    """A value column fit for the function."""
    dt = dt or c.pick(DT)
    noinv = fn in ("rsum", "rmean", "rdiff") or (fn in ("median", "mode") and dt.kind in "iu")
    v = gen.values(c, dt, n, invalids=not noinv)
    if dt.kind == "f":
        lim = 1e12 if dt.itemsize == 8 else 1e6
        keepinf = fn in ("min", "max", "nanmin", "nanmax", "first", "nth", "last", "rshift", "median", "mode", "quantile") or (
            fn in ("sum", "nansum", "mean", "nanmean") and c.coin(0.3))
        with np.errstate(all="ignore"):
            big = np.abs(v) > lim
            if keepinf:
                big &= ~np.isinf(v)
            v = np.where(big, np.copysign(dt.type(3), v), v).astype(dt)
        if noinv:
            v[v != v] = 1
    if n >= 8192 and dt.kind in "iuf" and c.coin(0.5):  # few invalid values: only some of the workers meet one
        v[gen.is_inv(v)] = 1
        if not noinv:
            v[c.rng.integers(0, n, int(c.pick([0, 1, 1, 2, 3])))] = gen.inv(dt)
    if fn in ("rmean", "rnanmean") and dt.kind in "iu" and dt.itemsize == 8:
        iv = gen.inv(dt)
        v = np.where(v == iv, iv, v // 1000003).astype(dt) if dt.kind == "i" else np.where(v == iv, iv, v // dt.type(1000003)).astype(dt)
    return v


def floats(want, od):
    with np.errstate(all="ignore"):
        return np.asarray(want).astype(od)


def near(c, key, got, want, scale, det):
    """Floating results: equal, both NaN, or within a few units of rounding of the accumulated magnitude."""
    eps = 1e-6 if got.dtype.itemsize == 4 else 1e-11
    with np.errstate(all="ignore"):
        g, w = got.astype("g"), np.asarray(want, "g")
        ok = (g == w) | ((g != g) & (w != w)) | (np.abs(g - w) <= eps * (np.abs(w) + np.asarray(scale, "g")) + 1e-300)
        ok |= (got == floats(w, got.dtype))
        # values at the edge of the dtype may round to infinity
    if not ok.all():
        i = int(np.flatnonzero(~ok)[0])
        c.fail(key, f"{int((~ok).sum())} of {len(ok)} differ, first at {i}: got {got[i]!r}, expected {w[i]!r}; {det}")
    else:
        c.check(True, key, "")


def per(x, nb):
    """(rows sorted by bin, start, count) for bins 0..nb-1"""
    o = np.argsort(x, kind="stable")
    cnt = np.bincount(x.astype("q"), minlength=nb)
    return o, np.r_[0, np.cumsum(cnt)[:-1]], cnt


def reduceat(ufunc, v, start, cnt, empty):
    out = np.full(len(cnt), empty, v.dtype)
    use = np.flatnonzero(cnt)
    if len(use):
        with np.errstate(all="ignore"):
            out[use] = ufunc.reduceat(v, start[use])
    return out


def expect32(fn, v, x, nb):
    """(expected result, dtype, rounding scale or None when exact) of a GroupByAll32 function over bins 0..nb-1."""
    nan = fn.startswith("nan")
    base = fn[3:] if nan else fn
    dt = v.dtype
    bad = gen.is_inv(v)
    o, start, cnt = per(x, nb)
    anybad = reduceat(np.logical_or, bad[o], start, cnt, False)
    if nan:
        k = ~bad
        v, xx = v[k], x[k]
        o, start, cnt = per(xx, nb)
        anybad = np.zeros(nb, bool)
    v = v[o]
    if base in ("min", "max"):
        od = dt
        if dt.kind == "b":
            e = False
        else:
            e = gen.inv(dt)
        r = reduceat(np.minimum if base == "min" else np.maximum, v, start, cnt, e)
        if dt.kind != "b":
            r[anybad] = e
        return r, od, None
    if base == "sum" and dt.kind in "biu":
        od = np.dtype("Q" if dt.kind == "u" else "q")
        r = reduceat(np.add, v.astype(od), start, cnt, 0)
        r[anybad] = gen.inv(od)
        return r, od, None
    od = np.dtype("f") if dt == "f" else np.dtype("d")
    w = v.astype("g")
    with np.errstate(all="ignore"):
        mag = np.where(np.isfinite(w), np.abs(w), 0)
        scale = reduceat(np.add, mag, start, cnt, 0)
        s = reduceat(np.add, w, start, cnt, 0)
        if base == "sum":
            r = s
        elif base == "mean":
            r = np.where(cnt > 0, s / np.maximum(cnt, 1), np.nan)
            scale = scale / np.maximum(cnt, 1)
        else:
            m = s / np.maximum(cnt, 1)
            d = w - np.repeat(m, cnt)
            r = np.where(cnt > 1, reduceat(np.add, d * d, start, cnt, 0) / np.maximum(cnt - 1, 1), np.nan)
            mx = reduceat(np.maximum, mag, start, cnt, 0)
            scale = r + mx * mx * 1e-7  # error of the mean, squared, and cancellation
            if base == "std":
                r = np.sqrt(r)
                scale = r + mx * (1e-3 + cnt * 1e-4) + (1e-13 if dt == "f" else 1e-140)  # squares underflow
        r = np.where(anybad, np.nan, r)
    return r, od, scale


def all32(c, big=0.4):
    n, x, u = grouping(c, big=big)
    k = int(c.pick([1, 1, 1, 2, 3] if n < 30000 else [1, 1, 1, 1, 1, 2]))  # one column of many rows is split by rows
    fns = [int(c.pick(list(F32))) for _ in range(k)]
    cols = [column(c, n, F32[f]) for f in fns]
    lays = [c.pick(LAY) for _ in range(k + 1)]
    lows = [int(c.pick([0, 1, 1, 1, c.rng.integers(0, u + 1)])) for _ in range(k)]
    highs = [int(c.pick([u + 1, u + 1, u + 1, c.rng.integers(l, u + 2)])) for l in lows]
    gen.threads(c, rc)
    laid = [gen.lay(c, v, l) for v, l in zip(cols, lays)]
    xl = gen.lay(c, x, lays[-1])
    tag = ",".join(F32[f] + ":" + v.dtype.char for f, v in zip(fns, cols))
    c.sig("all32", tag, x.dtype.char, cls(n), "few" if u * 10 < n else "many", [l > 0 for l in lows], [h > u for h in highs], lays[-1])
    det = f"{n} rows {u} groups key {x.dtype.char} {tag} bins {lows}..{highs} {lays}"
    c.sample(det)
    r = rc.GroupByAll32(laid, xl, u, fns, lows, highs, None)
    c.check(isinstance(r, tuple) and len(r) == k, "all32:shape", lambda: det)
    for f, v, lo, hi, got in zip(fns, cols, lows, highs, r):
        fn = F32[f]
        key = f"all32:{fn}:{v.dtype.kind}"
        want, od, scale = expect32(fn, v, x, u + 1)
        c.check(len(got) == u + 1, key + ":length", lambda: det)
        if v.dtype.kind == "b" and fn.endswith(("min", "max")):
            got = got.view("b") if got.dtype == bool else got
            w = want.view("b").copy()
            e = np.bincount(x, minlength=u + 1) == 0  # open: what an empty group of booleans gives
            gg = got.copy()
            gg[e] = w[e]
            gen.expect(c, key, gg[lo:hi].astype("b"), w[lo:hi], det)
            continue
        c.check(gen.norm(got.dtype) == gen.norm(od) if hasattr(gen, "norm") and False else got.dtype.kind == od.kind and got.dtype.itemsize == od.itemsize,
                key + ":dtype", lambda: f"{got.dtype}, expected {od}; {det}")
        if scale is None:
            gen.expect(c, key, got[lo:hi], want[lo:hi].astype(got.dtype), det)
        else:
            near(c, key, got[lo:hi], want[lo:hi], scale[lo:hi], det)
        c.seen("group results", hi - lo)
    c.seen("rows aggregated", n * k)


def packing(c, kinds=KEYS):
    n, x, u = grouping(c, kinds)
    o, start, cnt = per(x, u + 1)
    it = np.dtype(c.pick("iiq"))
    return n, x, u, o, start, cnt, [a.astype(it) for a in (o, start, cnt)]


def anycol(c, n, fn):
    if fn in ("first", "nth", "last", "rshift") and c.coin(0.25):
        v = gen.strings(c, c.pick("SU"), n)
        if c.coin(0.3):
            v = np.ascontiguousarray(v).view([("a", v.dtype)]) if c.coin(0.5) else v
        return v
    if fn == "rcount":
        return column(c, n, fn, np.dtype(c.pick("bhiq")))
    if fn in ("rmean", "rnanmean", "rdiff", "rquantile"):
        return column(c, n, fn, c.pick([d for d in DT if d.kind != "b"]))
    if fn == "trimbr":
        return column(c, n, fn, np.dtype(c.pick("fd")))
    return column(c, n, fn)


def empty(v):
    return np.zeros(1, v.dtype)[0] if v.dtype.kind in "SUVb" else gen.inv(v.dtype)


def quant(s, q9, dt, snap=0):
    """Midpoint quantile of a sorted list; exact arithmetic on the index, which within `snap` of a whole number counts as one."""
    i, rem = divmod((len(s) - 1) * q9, E9)
    if rem < snap:
        rem = 0
    elif rem > E9 - snap:
        i, rem = i + 1, 0
    if not rem:
        return s[i]
    if dt.kind == "b":
        return s[i] | s[i + 1]
    with np.errstate(all="ignore"):
        if dt.kind == "f":
            return dt.type(s[i] + s[i + 1]) / dt.type(2)
        return np.float64((np.longdouble(s[i]) + np.longdouble(s[i + 1])) / 2)


def ntrim(n):
    nb = 0.0001 * n
    safe = int(np.ceil(nb))
    if nb > 50:
        safe = int(np.ceil(nb + 2.6521 * np.sqrt(nb)))
    else:
        p = add = np.exp(-nb)
        i = 0
        while p < 0.996 and i < 100:
            i += 1
            add *= nb / i
            p += add
        safe = max(safe, i)
    return min(max(safe, 1), n)


def one(fn, s, param, dt):
    """Result for one group's values s (in row order); None means invalid."""
    if not len(s):
        return None
    if fn == "first":
        return s[0]
    if fn == "last":
        return s[-1]
    if fn == "nth":
        return s[param] if -len(s) <= param < len(s) else None
    if fn == "quantile":
        nanv = param > E9
        q9 = param - E9 - 1 if nanv else param
        b = gen.is_inv(s)
        if b.any() and not nanv:
            return None
        s = np.sort(s[~b])
        return quant(s, q9, dt) if len(s) else None
    if fn == "median":
        s = np.sort(s[s == s])
        if not len(s):
            return None
        if len(s) & 1:
            return s[len(s) // 2]
        a, b = s[len(s) // 2], s[len(s) // 2 - 1]
        if dt.kind == "b":
            return a | b
        if dt.kind == "f":
            with np.errstate(all="ignore"):
                return dt.type(a + b) / dt.type(2)
        t = int(a) + int(b)
        return dt.type(-(-t // 2) if t < 0 else t // 2)
    if fn == "mode":
        s = s[s == s]
        if not len(s):
            return None
        vals, k = np.unique(s, return_counts=True)
        return vals[int(np.argmax(k))]
    if fn == "trimbr":
        s = np.sort(s[s == s])
        t = ntrim(len(s)) if len(s) else 0
        if not len(s) or len(s) <= 2 * t:
            return None
        lb, ub = s[t - 1], s[len(s) - t]
        w = s[(s >= lb) & (s <= ub)]
        return w.astype("g").mean()
    raise AssertionError(fn)


def allpack(c):
    n, x, u, o, start, cnt, packed = packing(c)
    if u > 3000 and c.coin(0.7):
        n, x, u, o, start, cnt, packed = packing(c, [np.dtype("b"), np.dtype("h")])
    f = int(c.pick(list(PACK)))
    fn = PACK[f]
    k = int(c.pick([1, 1, 2]))
    cols = [anycol(c, n, fn) for _ in range(k)]
    param = 0
    if fn == "nth":
        param = int(c.pick([0, 1, 2, -1, -2, 5, 2 ** 31, -2 ** 31, 2 ** 40]))
    elif fn == "quantile":
        param = int(c.pick([0, E9 // 4, E9 // 2, E9 // 2, 3 * E9 // 4, E9, E9 // 10, 333333333, 7 * E9 // 10, 9 * E9 // 10])) + int(c.pick([0, E9 + 1]))
    lo = int(c.pick([0, 1, 1]))
    hi = int(c.pick([u + 1, u + 1, c.rng.integers(lo, u + 2)]))
    lays = [c.pick(LAY) for _ in range(k + 1)]
    pl = c.pick(["c", "c", "step", "ro"])
    gen.threads(c, rc)
    tag = ",".join(v.dtype.char for v in cols)
    c.sig("pack", fn, tag, x.dtype.char, packed[0].dtype.char, cls(n), hi > u, param if fn != "quantile" else param > E9, pl)
    det = f"{n} rows {u} groups key {x.dtype.char} {fn} {tag} param {param} bins {lo}..{hi} {lays} {pl}"
    c.sample(det)
    r = rc.GroupByAllPack32([gen.lay(c, v, l) for v, l in zip(cols, lays)], gen.lay(c, x, lays[-1]), *[gen.lay(c, a, pl) for a in packed], u, [f] * k, [lo] * k,
                            [hi] * k, param)
    c.check(isinstance(r, tuple) and len(r) == k, "pack:shape", lambda: det)
    for v, got in zip(cols, r):
        key = f"pack:{fn}:{v.dtype.kind}"
        c.check(len(got) == u + 1, key + ":length", lambda: det)
        bins = np.arange(lo, hi)
        if len(bins) > 400:  # a sample of the groups, always with the ends and the biggest
            bins = np.unique(np.r_[lo, hi - 1, lo + np.argsort(cnt[lo:hi])[-3:], c.rng.integers(lo, hi, 300)])
        sv = v[o]
        want = [one(fn, sv[start[b]:start[b] + cnt[b]], param, v.dtype) for b in bins]
        od = got.dtype
        if fn in ("first", "nth", "last", "median", "mode"):
            c.check(od == v.dtype or (od.kind == v.dtype.kind and od.itemsize == v.dtype.itemsize), key + ":dtype", lambda: f"{od}; {det}")
        if v.dtype.kind == "b":  # open: what an empty group of booleans gives
            m = [i for i, w in enumerate(want) if w is not None]
            gen.expect(c, key, got[bins][m].astype(bool), np.array([want[i] for i in m], bool), det)
        elif v.dtype.kind in "SUV":
            w = np.array([empty(v) if q is None else q for q in want], v.dtype)
            c.check(got[bins].astype(v.dtype).tobytes() == w.tobytes(), key, lambda: f"got {got[bins][:5]} expected {w[:5]}; {det}")
        elif fn in ("quantile", "trimbr"):
            w = np.array([np.nan if q is None else q for q in want], "g")
            c.check(od.kind == "f" and od.itemsize == (4 if v.dtype == "f" else 8), key + ":dtype", lambda: f"{od}; {det}")
            if fn == "quantile":  # open: a whole index that the double product misses by a rounding
                q9 = param - E9 - 1 if param > E9 else param
                ng = np.array([int((~gen.is_inv(sv[start[b]:start[b] + cnt[b]])).sum()) for b in bins], "q") - 1
                skip = (ng * q9 % E9 == 0) & ((ng * (q9 / 1e9)) % 1 != 0)
                g = np.where(skip, np.nan, got[bins])
                near(c, key, g, np.where(skip, np.nan, w), 0, det)
                return
            with np.errstate(all="ignore"):
                near(c, key, got[bins], w, reduceat(np.fmax, np.abs(sv.astype("g")), start, cnt, 0)[bins] if fn == "trimbr" else 0, det)
        else:
            w = np.array([empty(v) if q is None else q for q in want], v.dtype)
            gen.expect(c, key, got[bins].astype(v.dtype), w, det)
        c.seen("group results", len(bins))


def windows(w, nb, m):
    return [(max(0, i - w + 1), i + 1) for i in range(m)]


def rolling(c):
    n, x, u, o, start, cnt, packed = packing(c)
    f = int(c.pick(list(ROLL)))
    fn = ROLL[f]
    v = anycol(c, n, fn)
    w = int(c.pick([1, 1, 2, 3, 5, 10, 100, n, n + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 40]))
    if fn in ("rdiff", "rshift", "rcount") and c.coin(0.4):
        w = -w
    if fn in ("rdiff", "rshift", "rsum") and c.coin(0.1):
        w = 0
    param = w
    q9 = 0
    if fn == "rquantile":
        w = min(w, 1 + int(c.pick([n, 3, 20, 300])))
        q9 = int(c.pick([0, E9 // 4, E9 // 2, E9 // 2, 3 * E9 // 4, E9, E9 // 10, 333333333]))
        param = q9 + w * (E9 + 1)
    lay, kl, pl = c.pick(LAY), c.pick(LAY), c.pick(["c", "c", "step", "ro"])
    gen.threads(c, rc)
    c.sig("rolling", fn, v.dtype.char, x.dtype.char, packed[0].dtype.char, cls(n), "big" if abs(w) >= n else w if abs(w) < 11 else "mid", lay)
    det = f"{n} rows {u} groups key {x.dtype.char} {fn} {v.dtype.char} window {w} q {q9} {lay} {kl} {pl} {packed[0].dtype}"
    c.sample(det)
    key = f"roll:{fn}:{v.dtype.kind}"
    got = rc.GroupByAllPack32([gen.lay(c, v, lay)], gen.lay(c, x, kl), *[gen.lay(c, a, pl) for a in packed], u, [f], [0], [u + 1], param)[0]
    c.check(len(got) == n, key + ":length", lambda: det)
    g = got[o]
    sv = v[o]
    b = np.repeat(np.arange(u + 1), cnt)
    pos = np.arange(n) - np.repeat(start, cnt)
    rev = np.repeat(cnt, cnt) - 1 - pos
    zero = b == 0
    aw = abs(w)
    have = (pos >= aw) if w >= 0 else (rev >= aw)
    if fn in ("rshift", "rdiff"):
        src = np.clip(np.arange(n) + (-w if aw <= n else 0), 0, n - 1)
        ok = have & ~zero
        if fn == "rshift":
            want = np.full(n, empty(v), v.dtype) if v.dtype.kind != "V" else np.zeros(n, v.dtype)
            want[ok] = sv[src][ok]
            if v.dtype.kind in "SUV":
                c.check((g if v.dtype.kind == "V" else g.astype(v.dtype)).tobytes() == want.tobytes(), key, lambda: det)
                return
            if v.dtype.kind == "b":
                g, want = g[ok], want[ok]
        else:
            with np.errstate(all="ignore"):
                want = np.where(ok, sv - sv[src], empty(v)).astype(v.dtype)
        gen.expect(c, key, g, want, det)
        c.seen("rolled rows", n)
        return
    if fn == "rcount":
        want = np.where(zero, gen.inv(np.dtype("i")), pos if w >= 0 else rev).astype("i")
        gen.expect(c, key, g, want, det)
        return
    # window sums by prefix sums within the groups
    m = np.minimum(pos + 1, min(aw, n))  # elements in each window
    bad = gen.is_inv(sv)
    nanv = fn in ("rnansum", "rnanmean")
    first = np.arange(n) - m  # prefix index before the window
    if fn == "rquantile":
        idx = np.arange(n) if n <= 500 else np.unique(np.r_[0, n - 1, c.rng.integers(0, n, 400)])
        want = []
        for i in idx:
            s = sv[first[i] + 1:i + 1]
            s = np.sort(s[~gen.is_inv(s)])
            want.append(np.nan if zero[i] or not len(s) else quant(s.astype("d") if sv.dtype == "f" else s, q9, np.dtype("d") if sv.dtype == "f" else sv.dtype, E9 // 1000))
        near(c, key, g[idx], np.array(want, "g"), 0, det)
        c.seen("rolled rows", len(idx))
        return
    if v.dtype.kind == "f":
        z = np.where(bad, 0, sv).astype("g")
    elif fn in ("rmean", "rnanmean"):
        z = np.where(bad & nanv, 0, sv).astype("g")
    else:
        z = np.where(bad & nanv, 0, sv.astype("q"))
    ps = np.r_[z[:1] * 0, np.cumsum(z)]
    s = ps[1:] - ps[first + 1]
    cs = np.r_[0, np.cumsum(~bad)]
    k = cs[1:] - cs[first + 1]
    scale = 0
    if z.dtype.kind == "f":
        pa = np.r_[0, np.cumsum(np.abs(z))]
        scale = pa[1:] - pa[np.arange(n) - pos] + pa[1:] * 1e-6  # magnitude added up since the start of the group, and the reference's own rounding
    if fn in ("rsum", "rnansum"):
        if v.dtype.kind == "f":
            near(c, key, g, np.where(zero, np.nan, s), scale * (1 if v.dtype == "d" else 0.1 * n), det)
        else:
            gen.expect(c, key, g, np.where(zero, gen.inv(np.dtype("q")), s).astype("q"), det)
    else:
        den = k if nanv else m
        with np.errstate(all="ignore"):
            want = np.where(zero | (den == 0), np.nan, s / np.maximum(den, 1))
        near(c, key, g, want, scale, det)
    c.seen("rolled rows", n)


FAMILIES = [("all32", 10, all32), ("split", 2, lambda c: all32(c, 1.0)), ("allpack", 6, allpack), ("rolling", 6, rolling)]
