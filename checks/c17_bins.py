import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C17"
FLAVOURS = {"quick": {"rel": 9000, "asan": 1500}, "thorough": {"rel": 150000, "asan": 26000}}
RULE = ("One case draws values of one dtype, edges of another (from one to more than thirty thousand of them) with values on, next to and far "
        "from the edges, and a mode, or a sort index with its counts of invalid values, or strings, or a table to interpolate in, and compares "
        "every row with numpy's searchsorted in a type that holds both exactly. A signature is (operation, dtypes, edges class, mode, length class, layout).")
ASSUMPTIONS = ["integers compare exactly with integers; a float on either side makes it a comparison of doubles (long doubles if the values are)",
               "edges are sorted and not NaN; for bin cuts they are distinct; False may count as an invalid value there",
               "interpolated values are compared within the rounding of the terms of the line"]

CUTS = [np.dtype(c) for c in "bhiqQfdlL"]
VALS = gen.NUM + gen.LONGS + [np.dtype("g")]
LAYS = ("c", "c", "off", "mis", "step", "neg", "ro")
NCUTS = [1, 1, 2, 2, 3, 4, 5, 8, 11, 33, 64, 99, 100, 101, 102, 127, 128, 129, 255, 256, 300, 1000]
BIGCUTS = [29999, 30000, 30001, 30002, 32767, 32768, 32769, 40000]


def cls(n):
    return "0" if n == 0 else "<300" if n < 300 else "<16k" if n < 16384 else "<32k" if n < 32768 else "big"


def ccls(m):
    return "1" if m == 1 else "<=100" if m <= 100 else "<=30000" if m <= 30000 else "big"


def lay(c, a):
    if a.dtype.itemsize > 1 and a.dtype.char != "g" and a.dtype.kind in "iuf" and c.coin(0.06):
        return a.astype(a.dtype.newbyteorder(">")), "swapped"
    return gen.layout(c, a, LAYS)


def common(v, cuts):
    """The type both sides are compared in."""
    if v.dtype.kind in "biu" and cuts.dtype.kind in "iu":
        return np.dtype("g")
    return np.dtype("g") if v.dtype.char == "g" else np.dtype("d")


def edges(c, dt, m):
    """m distinct ascending edges."""
    r = c.rng
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        lo, hi = ii.min, ii.max
        span = c.pick(["small", "full", "near"])
        if span == "small":
            a = int(r.integers(max(lo, -3 * m), 50))
            a = max(a, lo)
            b = min(hi, a + m * int(r.integers(1, 20)) + 3)
        elif span == "near" and dt.itemsize == 8:
            a = int(c.pick([2**53, 2**62, 2**24]))
            b = a + 3 * m + 5
        else:
            a, b = lo, hi
        if b - a + 1 < m:
            a, b = lo, hi
        m = min(m, b - a + 1)
        if b - a < 10**6:
            e = r.choice(np.arange(a, b + 1, dtype=object) if dt.char in "QL" else np.arange(a, b + 1), m, replace=False)
        else:
            e = r.integers(a, b, 2 * m + 8, dtype=dt, endpoint=True)
            if m > 2 and c.coin(0.3):
                e[:2] = [ii.min, ii.max]
        return np.unique(np.asarray(e).astype(dt))[:max(m, 1)]
    k = c.pick(["normal", "halves", "wide", "big"])
    if k == "normal":
        e = r.normal(0, 20, 2 * m + 4)
    elif k == "halves":
        e = r.integers(-2 * m - 5, 2 * m + 5, 3 * m + 6) * 0.5
    elif k == "wide":
        e = r.normal(0, 1, 2 * m + 4) * 10.0 ** r.integers(-20, 20, 2 * m + 4)
    else:
        e = np.float64(2**53) * r.random(2 * m + 4) * c.pick([1.0, 0.001, 300.0])
    e = np.unique(e.astype(dt))
    s = int(r.integers(0, max(1, len(e) - m + 1)))
    e = e[s:s + m]
    if len(e) > 1 and c.coin(0.15):
        e[-1] = np.inf
    if len(e) > 1 and c.coin(0.15):
        e[0] = -np.inf
    return e


def around(c, dt, cuts, n):
    """n values of dtype dt: on the edges, next to them, and anywhere."""
    r = c.rng
    v = gen.values(c, dt, n) if dt.char != "g" else gen.values(c, np.dtype("d"), n).astype("g")
    if dt.kind == "b" or not n:
        return v
    near = np.flatnonzero(r.random(n) < c.pick([0.5, 0.9]))
    e = cuts[r.integers(0, len(cuts), len(near))]
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        with np.errstate(all="ignore"):
            x = e.astype("g")
            x = np.where(np.isfinite(x), x, 0)
            x = np.clip(np.floor(x) + r.integers(-2, 3, len(x)), ii.min, ii.max)
            v[near] = x.astype(dt)
    else:
        with np.errstate(all="ignore"):
            x = e.astype(dt)
            k = r.integers(0, 5, len(x))
            x = np.where(k == 0, np.nextafter(x, dt.type(np.inf)), np.where(k == 1, np.nextafter(x, dt.type(-np.inf)),
                         np.where(k == 2, x + dt.type(0.25), x)))
            v[near] = x
    return v


def bsearch_ref(v, cuts, mode):
    t = common(v, cuts)
    m = len(cuts)
    x, e = v.astype(t), cuts.astype(t)
    nan = x != x
    od = np.int8 if m <= 100 else np.int16 if m <= 30000 else np.int32
    out = np.searchsorted(e, np.where(nan, t.type(0), x), "right" if mode == 2 else "left")
    if mode:
        out[nan] = m
        return out.astype(od)
    out[out == 0] = 1
    bad = nan | (x < e[0]) | (x > e[-1])
    bad |= ~np.isfinite(x) if v.dtype.kind == "f" else gen.is_inv(v)
    out[bad] = 0
    return out.astype(od)


def ncuts(c):
    return int(c.pick(BIGCUTS)) if c.flavour == "rel" and c.coin(0.03) else int(c.pick(NCUTS))


def fam_bsearch(c):
    tag = gen.threads(c, rc)
    vt, ct = c.pick(VALS), c.pick(CUTS)
    cuts = edges(c, ct, ncuts(c))
    mode = int(c.pick([0, 0, 1, 2]))
    if mode and len(cuts) > 2 and c.coin(0.4):  # equal edges
        cuts = np.sort(cuts[c.rng.integers(0, len(cuts), len(cuts))])
    if mode == 0 and vt.kind == "f" and cuts.dtype.kind in "iu":  # still distinct as doubles
        cuts = cuts[np.unique(cuts.astype(np.dtype("g") if vt.char == "g" else np.dtype("d")), return_index=True)[1]]
    n = gen.length(c, 0, big=0.2 if len(cuts) < 5000 else 0.05)
    v = around(c, vt, cuts, n)
    exp = bsearch_ref(v, cuts, mode)
    x, l1 = lay(c, v)
    e, l2 = lay(c, cuts)
    if l1 == "c" and n and n % 2 == 0 and c.coin(0.15):
        x, exp = v.reshape(2, -1), exp.reshape(2, -1)
        l1 = "2d"
        if c.coin(0.5):
            x, l1 = np.asfortranarray(x), "2dF"
    c.sig("bsearch", vt.char, ct.char, ccls(len(cuts)), mode, cls(n), l1, l2 == "c", tag[0])
    c.sample(f"bsearch {vt} {n} into {len(cuts)} {ct} edges mode {mode}")
    got = rc.BinsToCutsBSearch(x, e, mode)
    if vt.kind == "b" and mode == 0 and isinstance(got, np.ndarray) and got.shape == exp.shape:
        exp = np.where((np.asarray(x) == 0) & (got == 0), got, exp)  # whether False counts as the invalid bool is left open
    gen.expect(c, f"bsearch:{mode}", got, exp, lambda: f"{vt} values into {len(cuts)} {ct} edges, mode {mode}, {n} rows, layouts {l1} {l2} {tag}")
    c.check(np.array_equal(np.asarray(e), cuts) and np.array_equal(np.asarray(x).reshape(-1), v, equal_nan=v.dtype.kind == "f"), "bsearch:input",
            "an input changed")


def fam_sorted(c):
    tag = gen.threads(c, rc)
    vt = c.pick(VALS)
    cuts = edges(c, np.dtype("d"), ncuts(c))
    cuts = cuts[np.isfinite(cuts)] if np.isfinite(cuts).any() else np.array([1.5])
    if len(cuts) > 2 and c.coin(0.3):
        cuts = np.sort(cuts[c.rng.integers(0, len(cuts), len(cuts))])
    m = len(cuts)
    n = gen.length(c, 0, big=0.08)
    v = around(c, vt, cuts, n)
    it = np.dtype(c.pick("iql"))
    # the order a sort gives: NaN last; the counts are of the invalid values at the ends
    o = np.argsort(v, kind="stable").astype(it)
    nan = pinf = ninf = 0
    if vt.kind == "f":
        nan, pinf, ninf = int((v != v).sum()), int((v == np.inf).sum()), int((v == -np.inf).sum())
    elif vt.kind == "i":
        ninf = int(gen.is_inv(v).sum())
    elif vt.kind == "u":
        pinf = int(gen.is_inv(v).sum())
    x, l1 = lay(c, v)
    oi, l2 = lay(c, o)
    e, l3 = lay(c, cuts)
    c.sig("sorted", vt.char, it.char, ccls(m), cls(n), l1, l2 == "c", nan > 0, pinf > 0, ninf > 0)
    c.sample(f"sorted {vt} {n} into {m} edges, counts {(nan, pinf, ninf)}")
    if n:
        got = rc.NanInfCountFromSort(x, oi)
        c.check(got == (nan, pinf, ninf), "count", lambda: f"NanInfCountFromSort gave {got}, expected {(nan, pinf, ninf)}; {vt} {n} rows {l1} {l2}")
    out = np.zeros(n, np.int64)
    mid = o[ninf:n - nan - pinf]
    y = v[mid].astype("d")
    j = np.searchsorted(cuts, y, "left")
    r = np.maximum(j, 1 if m > 1 else 0) + 1
    r[(y < cuts[0]) | (y > cuts[-1])] = 1
    out[mid] = r
    od = np.int8 if m <= 100 else np.int16 if m <= 30000 else np.int32
    got = rc.BinsToCutsSorted(x, e, oi, (nan, pinf, ninf), int(c.pick([0, 1])))
    gen.expect(c, "sorted", got, out.astype(od), lambda: f"{vt} values into {m} edges, {n} rows, counts {(nan, pinf, ninf)}, layouts {l1} {l2} {l3}")


def fam_strings(c):
    tag = gen.threads(c, rc)
    n = gen.length(c, 0, big=0.2)
    v = gen.strings(c, "S", n)
    m = int(c.pick([1, 2, 3, 5, 20, 99, 100, 101, 150, 300]))
    pool = gen.strings(c, "S", 4 * m + 5, pool=4 * m + 5)
    if n and c.coin(0.5):
        pool[:len(pool) // 2] = v[c.rng.integers(0, n, len(pool) // 2)]
    cuts = np.unique(pool)
    cuts = cuts[:m] if c.coin(0.5) else cuts[-m:]
    m = len(cuts)
    x, l1 = lay(c, v)
    e, l2 = lay(c, cuts)
    w = np.dtype(f"S{max(v.dtype.itemsize, cuts.dtype.itemsize)}")  # numpy mixes up bytes above 127 when the widths differ
    vw, cw = v.astype(w), cuts.astype(w)
    out = np.searchsorted(cw, vw, "left")
    out[out == 0] = 1
    out[(vw == b"") | (vw < cw[:1]) | (vw > cw[-1:])] = 0
    c.sig("strings", min(v.dtype.itemsize, 20), v.dtype.itemsize > cuts.dtype.itemsize, ccls(m), cls(n), l1, l2 == "c")
    c.sample(f"strings {v.dtype} {n} into {m} {cuts.dtype}")
    got = rc.BinsToCutsBSearch(x, e, 0)
    gen.expect(c, "strings", got, out.astype(np.int8 if m <= 100 else np.int16),
               lambda: f"{v.dtype} values into {m} {cuts.dtype} edges, {n} rows, layouts {l1} {l2} {tag}")


def fam_interp(c):
    tag = gen.threads(c, rc)
    dt = np.dtype(c.pick("fd"))
    two = c.coin(0.5)
    m = int(c.pick([2, 2, 3, 4, 5, 9, 17, 40]))
    n = gen.length(c, 0, big=0.1 if m < 10 else 0.03)
    if two and n * m > 400000:
        n = 400000 // m
    shape = (n, m) if two else (m,)
    r = c.rng
    step = r.integers(1, 8, shape) * c.pick([0.25, 1.0, 0.3])
    xp = (np.cumsum(step, axis=-1) + c.pick([-10.0, 0.0, 3.0])).astype(dt)
    yp = (r.normal(0, 10, shape) if c.coin(0.5) else r.integers(-20, 20, shape)).astype(dt)
    if two:
        lo, hi = (xp[:, 0], xp[:, -1])
    else:
        lo, hi = xp[0], xp[-1]
    x = (lo + (hi - lo) * (r.random(n) * 1.6 - 0.3)).astype(dt)
    if n:
        k = r.random(n) < 0.3  # on the knots
        pickj = r.integers(0, m, n)
        on = xp[np.arange(n), pickj] if two else xp[pickj]
        x = np.where(k, on, x).astype(dt)
        sp = r.random(n)
        x[sp < 0.02] = np.nan
        x[(sp > 0.02) & (sp < 0.03)] = np.inf
        x[(sp > 0.03) & (sp < 0.04)] = -np.inf
    clip = c.coin(0.5)
    X, L = x.astype("g"), xp.astype("g")
    Y = yp.astype("g")
    if two:
        j = (L < np.where(X != X, 0, X)[:, None]).sum(1) if n else np.zeros(0, int)
    else:
        j = np.searchsorted(L, np.where(X != X, 0, X), "left")
    lowside, highside = j == 0, j == m
    b = np.clip(j, 1, m - 1)
    ix = (np.arange(n),) if two else ()
    x0, x1, y0, y1 = L[ix + (b - 1,)], L[ix + (b,)], Y[ix + (b - 1,)], Y[ix + (b,)]
    with np.errstate(all="ignore"):
        slope = (y1 - y0) / (x1 - x0)
        out = np.where(lowside, y0 + slope * (X - x0), np.where(highside, y1 + slope * (X - x1), y0 + slope * (X - x0)))
        if clip:
            out = np.where(lowside, y0, np.where(highside, y1, out))
        out[X != X] = np.nan
        tol = np.finfo(dt).eps * 16 * (np.abs(y0) + np.abs(y1) + np.abs(slope) * (np.abs(x0) + np.abs(x1) + np.abs(X)))
    gx, l1 = lay(c, x)
    c.sig("interp", dt.char, two, m, clip, cls(n), l1, tag[0])
    c.sample(f"interp {dt} {n} points in {shape}, clip {clip}")
    args = (gx, xp, yp) + ((int(clip),) if clip or c.coin(0.5) else ())
    got = rc.InterpExtrap2d(*args)
    c.check(isinstance(got, np.ndarray) and got.shape == (n,) and got.dtype == dt, "interp:shape", "wrong shape or dtype")
    c.seen("elements", n)
    with np.errstate(all="ignore"):
        ok = gen.same(got.astype("g"), out) | (np.abs(got - out) <= tol)
        # the code multiplies before it divides: an infinite x off the table may give infinity or NaN only alike
    c.check(bool(ok.all()), "interp:value", lambda: f"{gen.first_diff(got, out.astype(dt), ok)}; {dt} {n} points in {shape}, clip {clip}, {l1} {tag}")


def fam_wrong(c):
    """Arguments that do not fit each other are refused."""
    n = int(c.pick([0, 1, 5, 64, 300]))
    v = gen.values(c, c.pick(gen.NUM), n)
    cuts = np.arange(4.0)
    o = np.arange(n, dtype="i")
    k = c.pick(["empty", "cuttype", "len", "count", "index", "indextype", "unicode", "mode", "interp", "args"])
    c.sig("wrong", k, cls(n))
    c.sample(f"wrong {k} {n}")
    calls = []
    if k == "empty":
        calls = [lambda: rc.BinsToCutsBSearch(v, cuts[:0], int(c.pick([0, 1, 2]))),
                 lambda: rc.BinsToCutsSorted(v, cuts[:0], o, (0, 0, 0), 0)]
    elif k == "cuttype":
        calls = [lambda: rc.BinsToCutsBSearch(v, cuts.astype(c.pick("?BHI")), 0), lambda: rc.BinsToCutsSorted(v, cuts.astype("f"), o, (0, 0, 0), 0),
                 lambda: rc.BinsToCutsBSearch(v, cuts.astype("S"), 0)]
    elif k == "len":
        calls = [lambda: rc.BinsToCutsSorted(v, cuts, np.arange(n + 3, dtype="i"), (0, 0, 0), 0)]
    elif k == "count":
        bad = c.pick([(n + 1, 0, 0), (0, n + 1, 0), (0, 0, n + 1), (-1, 0, 0), (0, -1, 0), (0, 0, -5), (2**62, 2**62, 2**62), (n, 1, 0)])
        calls = [lambda: rc.BinsToCutsSorted(v, cuts, o, bad, 0)]
    elif k == "index":
        if not n:
            return
        o = o.astype(c.pick("iq"))
        o[int(c.rng.integers(0, n))] = c.pick([-1, n, n + 1000, 2**31 - 1, -2**31])
        calls = [lambda: rc.BinsToCutsSorted(v, cuts, o, (0, 0, 0), 0), lambda: rc.NanInfCountFromSort(v, o)]
    elif k == "indextype":
        if not n:
            return
        t = c.pick("bhBHIQfd")
        calls = [lambda: rc.BinsToCutsSorted(v, cuts, o.astype(t), (0, 0, 0), 0), lambda: rc.NanInfCountFromSort(v, o.astype(t))]
    elif k == "unicode":
        calls = [lambda: rc.BinsToCutsBSearch(v.astype("U"), cuts.astype("U"), 0), lambda: rc.BinsToCutsBSearch(v.astype("S"), cuts.astype("S"), 1)]
    elif k == "mode":
        calls = [lambda: rc.BinsToCutsBSearch(v, cuts, int(c.pick([3, -1, 100])))]
    elif k == "interp":
        x, xp = np.arange(6.0), np.arange(6.0)
        bad = c.pick([(x, xp, xp[:4]), (x, xp[:1], xp[:1]), (x.reshape(2, 3), xp, xp), (x, xp.reshape(3, 2), xp.reshape(3, 2)), (x, xp[::2], xp[::2]),
                      (x.astype("f"), xp, xp), (x.astype("i"), xp.astype("i"), xp.astype("i")), (x, xp.astype(">f8"), xp), (np.array(3.0), xp, xp),
                      (x, np.array(1.0), np.array(1.0)), (x, xp.reshape(6, 1), xp.reshape(6, 1)), (x, xp, xp.reshape(6, 1))])
        calls = [lambda: rc.InterpExtrap2d(*bad)]
    else:
        calls = [lambda: rc.BinsToCutsBSearch(), lambda: rc.BinsToCutsBSearch(v, 3, 0), lambda: rc.BinsToCutsSorted(v, cuts, o, (0, 0), 0),
                 lambda: rc.NanInfCountFromSort(), lambda: rc.NanInfCountFromSort([]), lambda: rc.NanInfCountFromSort(v), lambda: rc.InterpExtrap2d(1, 2, 3)]
    for f in calls:
        try:
            r = f()
        except Exception:
            c.seen("refusals")
            continue
        c.fail(f"accepted:{k}", f"{k}: gave {str(r)[:60]} instead of an error")


FAMILIES = [("bsearch", 10, fam_bsearch), ("sorted", 5, fam_sorted), ("strings", 3, fam_strings), ("interp", 3, fam_interp), ("wrong", 1.5, fam_wrong)]
