import math

import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C18"
FLAVOURS = {"quick": {"rel": 6000, "asan": 1000}, "thorough": {"rel": 150000, "asan": 26000}}
RULE = ("One case draws a cumulative or decay operation with groups, key width, include and reset masks, times and several columns, or a "
        "rolling operation with a window, or a time window, over one of the layouts, and compares every row with a recurrence evaluated "
        "by a separate implementation. A signature is (operation, dtype, key or time dtype, masks, length class, layout).")
ASSUMPTIONS = ["running float sums are compared within the rounding of the additions made since the start of the array; NaN and infinity in "
               "the rolling sums that do not skip them, and the degrees of freedom of rolling var/std before the first full window, are left open",
               "keys lie in 0..number of groups; times of a group ascend when their dtype is unsigned"]

E9 = 10**9
CUM = {300: "cumsum", 302: "cumprod", 303: "findnth", 306: "cumnanmax", 307: "cumnanmin", 308: "cummax", 309: "cummin"}
EMA = {301: "decay", 304: "normal", 305: "weighted"}
ROLL = {0: "sum", 1: "nansum", 102: "mean", 103: "nanmean", 104: "quantile", 106: "var", 107: "nanvar", 108: "std", 109: "nanstd"}
DTS = gen.NUM + gen.LONGS + [np.dtype("g")]
TIMES = [np.dtype(c) for c in "iqlILQfdg"]
LAYS = ("c", "c", "off", "mis", "step", "neg", "ro")


def cls(n):
    return "0" if n == 0 else "<300" if n < 300 else "<16k" if n < 16384 else "<32k" if n < 32768 else "big"


def swap(c, a):
    """The same values in the other byte order, now and then."""
    if a.dtype.itemsize > 1 and a.dtype.char != "g" and a.dtype.kind in "iuf" and c.coin(0.06):
        return a.astype(a.dtype.newbyteorder(">")), "swapped"
    return gen.layout(c, a, LAYS)


def keys(c, n):
    kt = np.dtype(c.pick("bhiqil"))
    u = int(c.pick([1, 1, 2, 3, 7, 30, 126, 127 if kt.char == "b" else 200, 0 if c.coin(0.1) else 5]))
    p = c.pick(["random", "sorted", "one", "runs"])
    if p == "random":
        k = c.rng.integers(0, u + 1, n)
    elif p == "sorted":
        k = np.sort(c.rng.integers(0, u + 1, n))
    elif p == "one":
        k = np.full(n, u)
    else:
        k = np.repeat(c.rng.integers(0, u + 1, n // 3 + 1), 3)[:n]
    if c.coin(0.4):
        k[k == 0] = u
    return k.astype(kt), u


def mask(c, n, what):
    if what == "include":
        return None if c.coin(0.45) else c.rng.random(n) < c.pick([0.0, 0.1, 0.5, 0.9, 1.0])
    return None if c.coin(0.5) else c.rng.random(n) < c.pick([0.0, 0.03, 0.3, 1.0])


def cum_ref(fn, v, k, inc, rst):
    """The value at every row by segments: group, then the included rows since the last reset."""
    n = len(v)
    if fn == "findnth":
        out = np.zeros(n, "i")
        for g in np.unique(k[k > 0]):
            i = np.flatnonzero((k == g) & (inc if inc is not None else True))
            out[i] = np.arange(1, len(i) + 1)
        return out
    ext = fn.startswith("cumnan") or fn in ("cummax", "cummin")
    dt = gen.norm(v.dtype)
    od = dt if ext or dt.kind == "f" else np.dtype("Q" if dt.kind == "u" else "q")
    empty = (gen.inv(od) if od.kind != "b" else False) if ext else 1 if fn == "cumprod" else 0
    out = np.zeros(n, od)
    if ext and od.kind == "b":
        out = out.astype("b")
        empty = -128
        v = v.view("b")
    out[:] = gen.inv(out.dtype)
    up = "max" in fn
    for g in np.unique(k[k > 0]):
        rows = np.flatnonzero(k == g)
        use = rows if inc is None else rows[inc[rows]]
        cut = [0] if rst is None else np.unique(np.r_[0, np.flatnonzero(rst[use])])
        res = np.zeros(len(use), out.dtype)
        for a, b in zip(cut, np.r_[cut[1:], len(use)].astype(int)):
            s = v[use[a:b]]
            if not len(s):
                continue
            with np.errstate(all="ignore"):
                if fn == "cumsum":
                    if a == 0 and od.kind == "f":  # starts from +0
                        s = np.r_[s[:1] + od.type(0), s[1:]]
                    r = np.cumsum(s, dtype=od)
                elif fn == "cumprod":
                    r = np.cumprod(s, dtype=od)
                else:
                    bad = gen.is_inv(s)
                    acc = np.maximum if up else np.minimum
                    if fn.startswith("cumnan"):
                        # a reset takes its own value, invalid or not; then valid values replace an invalid one
                        r = s.copy()
                        good = np.flatnonzero(~bad)
                        if len(good):
                            f = good[0]
                            t = s[f:].copy()
                            t[bad[f:]] = s[f]
                            r[f:] = acc.accumulate(t)
                            r[:f] = gen.inv(s.dtype)
                        else:
                            r[:] = gen.inv(s.dtype)
                    else:
                        r = s.copy()
                        f = int(np.argmax(bad)) if bad.any() else len(s)
                        if f:
                            r[:f] = acc.accumulate(s[:f])
                        r[f:] = gen.inv(s.dtype)
            res[a:b] = r
        # rows that are not included repeat the state
        if inc is None:
            out[rows] = res
        else:
            cnt = np.cumsum(inc[rows])
            full = np.concatenate([np.array([empty]).astype(out.dtype), res])
            out[rows] = full[cnt]
    return out.view(od) if ext and od.kind == "b" else out


def cum(c):
    f = int(c.pick(list(CUM)))
    fn = CUM[f]
    n = gen.length(c, big=0.1, huge=0.01)
    k, u = keys(c, n)
    inc, rst = mask(c, n, "include"), mask(c, n, "reset")
    if fn == "findnth":
        rst = None
    if rst is not None and n > 20000:  # the reference walks the segments one by one
        rst &= c.rng.random(n) < 4000 / n
    ncol = int(c.pick([1, 1, 2, 3, 7 if n < 2000 else 2]))
    cols = []
    for _ in range(ncol):
        dt = c.pick(DTS)
        x = gen.values(c, dt, n)
        if fn == "cumprod" and dt.kind == "f":
            x = (c.rng.integers(1, 4, n) * 0.5).astype(dt)
        elif fn == "cumprod" and c.coin():
            x = c.rng.integers(1, 4, n).astype(dt)
        cols.append(x)
    tm = gen.threads(c, rc)
    ls = [swap(c, x) for x in cols]
    ka, kl = swap(c, k)
    ia, il = (None, "-") if inc is None else gen.layout(c, inc, LAYS)
    ra, rl = (None, "-") if rst is None else gen.layout(c, rst, LAYS)
    c.sig(fn, cols[0].dtype.char, k.dtype.char, il != "-", rl != "-", cls(n), kl, ncol > 1, tm)
    det = (f"{fn} {[x.dtype.char for x in cols]} n={n} groups={u} key {k.dtype.char} {kl} columns {[x[1] for x in ls]} include {il} "
           f"reset {rl} {tm}")
    c.sample(det)
    got = rc.EmaAll32([x[0] for x in ls], ka, u, f, (0.0, None, ia, ra))
    c.check(len(got) == ncol, fn + ":columns", det)
    c.seen("cumulative rows", n * ncol)
    for x, g in zip(cols, got):
        want = cum_ref(fn, x, k, inc, rst)
        if want.dtype.kind == "b":
            g, want = g[k > 0], want[k > 0]
            ok = cum_seen(k, inc)[k > 0]
            g, want = g[ok], want[ok]
        gen.expect(c, f"{fn}:{x.dtype.kind}", g, want, lambda: det + f" column {x.dtype}")


def cum_seen(k, inc):
    """Rows whose group has had an included row (bool has no invalid to show before that)."""
    ok = np.ones(len(k), bool)
    if inc is not None:
        for g in np.unique(k):
            r = np.flatnonzero(k == g)
            ok[r] = np.cumsum(inc[r]) > 0
    return ok


def ema_ref(fn, v, k, t, rate, inc, rst, u):
    n = len(v)
    e, last, lastv = [0.0] * (u + 1), [0] * (u + 1), [0.0] * (u + 1)
    out = np.full(n, np.nan)
    vals = v.astype("d").tolist()
    kl = k.tolist()
    seen = [False] * (u + 1)
    # time differences in the dtype of the times
    tt = t.tolist() if t.dtype.kind in "iu" else list(t)
    dec = fn == "decay"
    if not dec:
        for i in range(n - 1, -1, -1):
            e[kl[i]] = vals[i]
    both = inc is not None and rst is not None
    for i in range(n):
        g = kl[i]
        if g < 1:
            continue
        x = vals[i]
        here = inc is None or inc[i]
        reset = rst is not None and rst[i] and here
        if fn == "weighted":
            if reset:
                e[g] = 0.0
            e[g] = (x if here else 0.0) * (1 - rate) + e[g] * rate
        elif both and not here:
            pass
        else:
            if reset:
                e[g], last[g] = 0.0, t.dtype.type(0) if t.dtype.kind == "f" else 0
                seen[g] = True
            if not here:
                x = 0.0 if dec else lastv[g]
            if dec:
                d = float(tt[i] - last[g])
                e[g] = x + e[g] * math.exp(-rate * d)
            else:
                w = 0.0
                if seen[g]:
                    d = float(tt[i] - last[g])
                    w = 0.0 if d < 0 else math.exp(-rate * d)
                e[g] = x * (1 - w) + e[g] * w
                lastv[g] = x
            seen[g] = True
            last[g] = tt[i]
        out[i] = e[g]
    return out


def ema(c):
    f = int(c.pick(list(EMA)))
    fn = EMA[f]
    n = int(c.pick([0, 1, 2, 3, 5, 17, 33, 64, 100, 257, 600])) if c.coin(0.85) else int(c.rng.integers(1, 3000))
    k, u = keys(c, n)
    inc, rst = mask(c, n, "include"), mask(c, n, "reset")
    td = c.pick(TIMES)
    if td.kind == "f":
        t = (c.rng.random(n) * c.pick([1, 10, 100])).astype(td)
    else:
        t = c.rng.integers(0, int(c.pick([2, 50, 1000])), n).astype(td)
    if td.kind == "u" or c.coin(0.8):
        t = np.sort(t)
    elif td.kind == "i":
        t -= 20
    rate = float(c.pick([0.001, 0.01, 0.1, 0.5]))
    if fn == "weighted":
        rate = float(c.pick([0.0, 0.1, 0.5, 0.9, 1.0]))
    ncol = int(c.pick([1, 1, 2, 4]))
    cols = []
    for _ in range(ncol):
        dt = c.pick(DTS)
        x = gen.values(c, dt, n, c.pick(["small", "dense"]) if dt.kind != "b" else None)
        cols.append(x)
    tm = gen.threads(c, rc)
    ls = [swap(c, x) for x in cols]
    ka, kl = swap(c, k)
    ta, tl = swap(c, t)
    ia, il = (None, "-") if inc is None else gen.layout(c, inc, LAYS)
    ra, rl = (None, "-") if rst is None else gen.layout(c, rst, LAYS)
    c.sig(fn, cols[0].dtype.char, k.dtype.char, td.char, il != "-", rl != "-", cls(n), tl)
    det = (f"ema {fn} {[x.dtype.char for x in cols]} n={n} groups={u} key {k.dtype.char} {kl} time {td.char} {tl} rate {rate} columns "
           f"{[x[1] for x in ls]} include {il} reset {rl} {tm}")
    c.sample(det)
    got = rc.EmaAll32([x[0] for x in ls], ka, u, f, (rate, ta, ia, ra))
    c.check(len(got) == ncol, fn + ":columns", det)
    c.seen("decay rows", n * ncol)
    for x, g in zip(cols, got):
        want = ema_ref(fn, x, k, t, rate, inc, rst, u)
        c.check(g.dtype == np.float64, fn + ":dtype", lambda: f"{g.dtype}; {det}")
        with np.errstate(all="ignore"):
            z = np.abs(x[~gen.is_inv(x)].astype("d")) if x.dtype.kind == "f" else np.abs(x.astype("d"))
            # large sentinel values leave their rounding behind in what follows
            big = float(z.max()) if len(z) else 0.0
            bound = np.nanmax(np.abs(want)) if n and not np.isnan(want).all() else 0.0
        gen.expect(c, f"{fn}:{x.dtype.kind}", g, want, lambda: det + f" column {x.dtype}", rtol=1e-9 if td.char != "f" else 1e-5,
                   atol=max(big, bound) * (1e-12 if td.char != "f" else 1e-6))


def rolling(c):
    f = int(c.pick(list(ROLL)))
    fn = ROLL[f]
    dt = c.pick(DTS)
    n = gen.length(c, big=0.1, huge=0)
    w = int(c.pick([1, 1, 2, 3, 5, 10, 50, 300, max(n - 1, 1), max(n, 1), n + 1, n + 1000]))
    nan = fn.startswith("nan") or fn == "quantile"
    if fn == "sum" and c.coin(0.05):
        w = 0
    k = dt.kind
    if k == "f":
        x = gen.values(c, dt, n, c.pick(["small", "unit", "ints", "dense", "const", "side"]), invalids=nan)
        if fn == "quantile" and c.coin(0.1):
            x = gen.values(c, dt, n, "wide")
        if nan and n > 3 and c.coin(0.3):  # stretches without a valid value
            i = int(c.rng.integers(0, n))
            x[i:i + int(c.pick([w, w + 1, 2 * w]))] = np.nan
    elif fn in ("sum", "nansum", "quantile"):
        x = gen.values(c, dt, n)
    else:
        x = gen.values(c, dt, n, c.pick(["small", "dense", "const", "side"]) if k != "b" else None, invalids=False)
    la, lay = swap(c, x)
    tm = gen.threads(c, rc)
    q9 = int(c.pick([0, E9 // 4, E9 // 2, 3 * E9 // 4, E9, E9 // 10, 333333333]))
    c.sig("rolling", fn, dt.char, cls(n), lay, "w" + (str(w) if w < 4 else "mid" if w < n else ">=n"))
    det = f"rolling {fn} {dt} n={n} window {w} q {q9} {lay} {tm}"
    c.sample(det)
    got = rc.Rolling(la, f, w if fn != "quantile" else q9 + w * (E9 + 1))
    c.seen("rolled rows", n)
    key = f"roll:{fn}:{k}"
    od = gen.norm(dt) if k == "f" else np.dtype("q" if f < 100 else "d")
    c.check(gen.norm(got.dtype) == od and len(got) == n, key + ":shape", lambda: f"{got.dtype} {got.shape}; {det}")
    if n == 0:
        return
    bad = gen.is_inv(x)
    lo = np.maximum(np.arange(n) + 1 - w, 0)
    hi = np.arange(1, n + 1)
    if fn == "quantile":
        idx = np.arange(n) if n * min(w, n) <= 30000 else np.unique(np.r_[0, n - 1, c.rng.integers(0, n, 30)])
        want = []
        for i in idx:
            s = x[lo[i]:hi[i]]
            s = np.sort(s[~gen.is_inv(s)])
            want.append(quant(s, q9) if len(s) else np.nan)
        gen.expect(c, key, got[idx], np.array(want, "g").astype(od), det, rtol=1e-6 if od.char == "f" else 1e-15)
        return
    if k != "f" and f < 100:
        with np.errstate(all="ignore"):
            z = x.astype("q")
            if fn == "nansum" and k != "b":
                z = np.where(bad, 0, z)
            ps = np.r_[np.int64(0), np.cumsum(z, dtype="q")]
            gen.expect(c, key, got, ps[hi] - ps[lo], det)
        return
    skip = bad if k == "f" else np.zeros(n, bool)
    z = np.where(skip, 0, x).astype("g")
    ps = np.r_[np.zeros(1, "g"), np.cumsum(z)]
    s = ps[hi] - ps[lo]
    cs = np.r_[0, np.cumsum(~skip)]
    cnt = cs[hi] - cs[lo]
    eps = np.finfo(od).eps
    mag = float(np.abs(z).max()) if n else 0.0
    with np.errstate(all="ignore"):
        if fn in ("sum", "nansum"):
            want, tol = s, eps * mag * min(n, w) * (n + 4)
            if np.all(z == np.round(z)) and mag * min(n, w) < 1 / eps:  # every partial sum is exact
                tol = 0
        elif fn in ("mean", "nanmean"):
            want = np.where(cnt > 0, s / cnt, np.nan)
            tol = eps * mag * (n + 4) * (min(n, w) / np.maximum(cnt, 1))
        else:
            q = np.r_[np.zeros(1, "g"), np.cumsum(z * z)]
            m = s / cnt
            want = np.maximum((q[hi] - q[lo]) / cnt - m * m, 0)
            want = np.where(cnt > 0, want, np.nan)
            tol = eps * mag * mag * (n + 8) * 8 * (min(n, w) / np.maximum(cnt, 1)) + 1e-18 * mag * mag * n
            if fn in ("std", "nanstd"):
                tol = np.minimum(np.sqrt(tol), tol / np.maximum(np.sqrt(want), 1e-300)) + eps * mag
                want = np.sqrt(want)
            if not nan:  # judged from the first full window
                got, want, tol = got[w:], want[w:], (tol[w:] if np.ndim(tol) else tol)
            else:
                ok = ~(skip & (np.arange(n) < w))
                got, want, tol = got[ok], want[ok], tol[ok]
        good = (np.abs(got - want) <= tol) | (got == want) | (np.isnan(got) & np.isnan(want))
    if n > 2 and fn in ("var", "std", "nanvar", "nanstd") and float(np.max(tol, initial=0)) > 0.01 * (mag * mag if "var" in fn else mag) and mag:
        c.seen("loose rows", n)
    c.check(bool(good.all()), key + ":value", lambda: f"{gen.first_diff(got, want.astype(od), good)}; {det}")


def quant(s, q9):
    i, rem = divmod((len(s) - 1) * q9, E9)
    if rem < E9 // 1000:
        rem = 0
    elif rem > E9 - E9 // 1000:
        i, rem = i + 1, 0
    if not rem:
        return np.longdouble(s[i])
    with np.errstate(all="ignore"):
        if s.dtype.kind == "f":
            return np.longdouble((s[i] + s[i + 1]) / s.dtype.type(2))
        return (np.longdouble(s[i]) + np.longdouble(s[i + 1])) / 2


def timewindow(c):
    dt = c.pick(DTS)
    n = gen.length(c, big=0.1, huge=0.01)
    prod = c.coin(0.35)
    d = int(c.pick([0, 1, 3, 10, 40]))
    t = np.sort(c.rng.integers(-n - 3, n + 3, n)) if c.coin(0.7) else np.cumsum(c.rng.integers(0, 4, n))
    if n and n < 1000 and c.coin(0.1):
        t[:] = 5
    unit = int(c.pick([1, 1, 1, 1000, 10**9, 2**31, 2**32, 2**33 + 1]))  # times may be nanoseconds
    t = (t * unit + int(c.pick([0, 0, 16 * 10**17]))).astype(c.pick(["q", "l"]))
    if unit > 1 and c.coin():
        d = max(0, d * unit + int(c.pick([-1, 0, 1])))
    if prod:
        x = (c.rng.integers(1, 4, n) * (0.5 if dt.kind == "f" else 1)).astype(dt) if c.coin(0.6) or dt.kind == "f" else gen.values(c, dt, n)
    else:
        x = gen.values(c, dt, n, c.pick(["small", "ints", "dense"]) if dt.kind == "f" else None, invalids=c.coin())
    xa, lay = swap(c, x)
    ta, tl = swap(c, t)
    tm = gen.threads(c, rc)
    fn = "prod" if prod else "sum"
    c.sig("timewindow", fn, dt.char, cls(n), lay, tl, d, tm)
    det = f"timewindow {fn} {dt} n={n} delta {d} {lay} time {t.dtype.char} {tl} {tm}"
    c.sample(det)
    got = rc.TimeWindow(xa, ta, 1 if prod else 0, d)
    c.seen("window rows", n)
    od = gen.norm(dt) if dt.kind == "f" else np.dtype("Q" if dt.kind == "u" else "q")
    key = f"time:{fn}:{dt.kind}"
    lo = np.searchsorted(t, t.astype("q") - d, "left")
    z = x.astype(od)
    if not prod and od.kind != "f":
        ps = np.r_[np.zeros(1, od), np.cumsum(z, dtype=od)]
        # ties and the rows after the current one are not part of its window
        want = ps[np.arange(1, n + 1)] - ps[lo]
        gen.expect(c, key, got, want, det)
        return
    out = z.copy()
    width = int((np.arange(n) - lo).max()) if n else 0
    i = np.arange(n)
    with np.errstate(all="ignore"):
        for s in range(1, width + 1):  # nearest row first, as the sum is built
            m = i - s >= lo
            if prod:
                out[m] = out[m] * z[i[m] - s]
            else:
                out[m] = out[m] + z[i[m] - s]
    gen.expect(c, key, got, out, det, rtol=8 * np.finfo(od).eps * (width + 1) if od.kind == "f" else 0,
               atol=(np.finfo(od).eps * 4 * (width + 1) * float(np.nanmax(np.abs(z), initial=0)) * (width + 1)) if od.kind == "f" and not prod else 0)


def wrong(c):
    """Arguments the operations must refuse."""
    n = int(c.rng.integers(2, 60))
    v = gen.values(c, np.dtype("d"), n)
    k = np.ones(n, "i")
    t = np.arange(n)
    what = c.pick(["column", "time", "include", "reset", "key", "window", "times", "timetype", "params"])
    c.sig("wrong", what)
    s = int(c.pick([0, n - 1, n + 1, 5 * n]))
    try:
        if what == "column":
            r = rc.EmaAll32([np.zeros(s)], k, 1, 300, (0.0, None, None, None))
        elif what == "time":
            r = rc.EmaAll32([v], k, 1, 301, (0.1, np.zeros(s), None, None))
        elif what == "include":
            r = rc.EmaAll32([v], k, 1, 300, (0.1, None, np.ones(s, bool), None))
        elif what == "reset":
            r = rc.EmaAll32([v], k, 1, 300, (0.1, None, None, np.ones(s, bool)))
        elif what == "key":
            r = rc.EmaAll32([v], k.astype(c.pick(["f", "d", "S3", "u1", "?"])), 1, 300, (0.1, None, None, None))
        elif what == "window":
            r = rc.Rolling(v, int(c.pick(list(ROLL))), -int(c.rng.integers(1, 2**40)))
        elif what == "times":
            r = rc.TimeWindow(v, np.zeros(s, "q"), 0, 1)
        elif what == "timetype":
            r = rc.TimeWindow(v, t.astype(c.pick(["i", "d", "S4"])), 0, 1)
        else:
            r = rc.EmaAll32([v], k, 1, 300, c.pick([(), (0.0,), (0.0, 1, 2), (0.0, 5, None, None), (0.0, None, 5, None), (0.0, None, None, "a")]))
    except (ValueError, TypeError):
        return
    c.fail("accepted:" + what, f"{what} n={n} wrong size {s}: returned {str(r)[:100]}")


FAMILIES = [("cum", 10, cum), ("ema", 5, ema), ("rolling", 8, rolling), ("timewindow", 4, timewindow), ("wrong", 0.5, wrong)]
