"""Input generators and reference helpers shared by the checks. Everything is drawn from ctx.rng."""
import numpy as np

BOOL = np.dtype("?")
SINTS = [np.dtype(c) for c in "bhiq"]
UINTS = [np.dtype(c) for c in "BHIQ"]
INTS = SINTS + UINTS
FLOATS = [np.dtype("f"), np.dtype("d")]
LONGS = [np.dtype("l"), np.dtype("L")]
NUM = [BOOL] + INTS + FLOATS
NUMX = NUM + LONGS  # with the ambiguous 'long' dtypes

# lengths around the places where the code changes path: vector registers, unrolled loops, bit masks, work chunks
SMALL = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 95, 96, 100, 127, 128, 129, 130, 191, 255, 256, 257, 300]
MEDIUM = [511, 512, 513, 1000, 1023, 1024, 1025, 2047, 4095, 4096, 4099, 8191, 8192, 8193]
LARGE = [16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000, 49151, 49152, 65535, 65536, 65537, 98304, 100003]
HUGE = [131071, 131073, 262144, 300001, 524289, 1048577]


def length(ctx, lo=0, big=0.25, huge=0.03):
    """A length; large ones only in the optimised build."""
    x = ctx.rng.random()
    if ctx.flavour != "rel":
        big, huge = big * 0.25, 0
    if x < huge:
        n = ctx.pick(HUGE)
    elif x < huge + big:
        n = ctx.pick(LARGE)
    elif x < huge + big + 0.12:
        n = ctx.pick(MEDIUM)
    elif x < huge + big + 0.16:  # just past a multiple of a power of two
        n = int(ctx.pick([256, 512, 1024, 2048, 4096, 8192, 16384])) * int(ctx.pick([1, 1, 1, 3])) + int(ctx.rng.integers(0, 40))
        n = n if ctx.flavour == "rel" or n < 9000 else n % 9000
    elif x < 0.85:
        n = ctx.pick(SMALL)
    else:
        n = int(ctx.rng.integers(0, 700))
    if n >= 16383 and ctx.coin(0.3):
        n += int(ctx.rng.integers(-40, 40))
    return max(lo, n)


def inv(dt):
    """The invalid value of a dtype."""
    dt = np.dtype(dt)
    if dt.kind == "i":
        return np.iinfo(dt).min
    if dt.kind == "u":
        return np.iinfo(dt).max
    if dt.kind == "f":
        return np.nan
    return None


def is_inv(a):
    a = np.asarray(a)
    if a.dtype.kind == "f":
        return a != a
    v = inv(a.dtype)
    return np.zeros(a.shape, bool) if v is None else a == v


def values(ctx, dt, n, mode=None, invalids=True):
    """n values of dtype dt in one of several regimes."""
    rng = ctx.rng
    dt = np.dtype(dt)
    if dt.kind == "b":
        p = ctx.pick([0.0, 0.02, 0.5, 0.98, 1.0])
        return rng.random(n) < p
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        mode = mode or ctx.pick(["small", "full", "edge", "mix", "const", "dense", "side"])
        if mode == "small":
            a = rng.integers(max(ii.min, -20), min(ii.max, 100), n).astype(dt)
        elif mode == "dense":
            a = rng.integers(0, 7, n).astype(dt)
        elif mode == "side":  # all on one side of zero, away from it
            a = rng.integers(max(ii.min // 2, -100000), -2, n).astype(dt) if dt.kind == "i" and ctx.coin(0.7) else rng.integers(
                3, min(ii.max // 2, 100000), n).astype(dt)
        elif mode == "const":
            a = np.full(n, rng.integers(max(ii.min, -20), min(ii.max, 100)), dt)
        elif mode == "full":
            a = rng.integers(ii.min, ii.max, n, dtype=dt, endpoint=True)
        elif mode == "edge":
            e = np.array([v for v in (ii.min, ii.min + 1, ii.min + 2, -2, -1, 0, 1, 2, ii.max // 2, ii.max // 2 + 1,
                                      ii.max - 1, ii.max) if ii.min <= v <= ii.max], dtype=dt)
            a = e[rng.integers(0, len(e), n)]
        else:
            a = rng.integers(ii.min, ii.max, n, dtype=dt, endpoint=True)
            m = rng.random(n) < 0.6
            a[m] = rng.integers(max(ii.min, -20), min(ii.max, 100), int(m.sum())).astype(dt)
        if n:
            if invalids and ctx.coin(0.5):
                a[rng.random(n) < ctx.pick([0.02, 0.3])] = inv(dt)
            elif not invalids:
                a[a == inv(dt)] = 1
        return a
    mode = mode or ctx.pick(["small", "unit", "wide", "ints", "special", "const", "dense", "side"])
    if mode == "small":
        a = rng.normal(0, 10, n).astype(dt)
    elif mode == "unit":
        a = rng.random(n).astype(dt)
    elif mode == "wide":
        with np.errstate(all="ignore"):
            a = (rng.normal(0, 1, n) * 10.0 ** rng.integers(-30, 30, n)).astype(dt)
    elif mode == "ints":
        a = rng.integers(-1000, 1000, n).astype(dt)
    elif mode == "side":
        a = ((rng.random(n) * 50 + 3) * ctx.pick([1, -1])).astype(dt)
    elif mode == "dense":
        a = (rng.integers(-3, 4, n) * 0.5).astype(dt)
    elif mode == "const":
        a = np.full(n, rng.normal(0, 3), dt)
    else:
        fi = np.finfo(dt)
        e = np.array([0.0, -0.0, 1, -1, 0.5, -0.5, 1.5, 2.5, -2.5, np.inf, -np.inf, fi.max, -fi.max, fi.tiny, -fi.tiny, fi.eps,
                      3, -3, 1e10, -1e10, 1e-10, 127.5, 4503599627370496.0, 8388608.0], dtype=dt)
        a = e[rng.integers(0, len(e), n)]
    if n and invalids and ctx.coin(0.5):
        a[rng.random(n) < ctx.pick([0.02, 0.3])] = np.nan
    return a


def strings(ctx, kind, n, width=None, pool=None):
    """n fixed-width strings ('S' or 'U') over a small alphabet, so that equal and prefix-sharing values are common."""
    rng = ctx.rng
    w = width or int(ctx.pick([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 33]))
    k = pool or int(ctx.pick([2, 10, 50, max(2, n)]))
    alpha = np.frombuffer(b"abcABC xyz\x7f\x01" if kind == "S" else b"abcABC xyz01", np.uint8)
    chars = alpha[rng.integers(0, len(alpha), (max(k, 1), w))].astype(np.uint32)
    if kind == "U" and ctx.coin(0.3):
        chars[rng.random(chars.shape) < 0.2] = ctx.pick([0xE9, 0x3B1, 0x4E2D, 0x1F600])
    if kind == "S" and ctx.coin(0.3):
        chars[rng.random(chars.shape) < 0.2] = 0xE9
    lens = rng.integers(0, w + 1, max(k, 1))
    if ctx.coin(0.3):
        lens[:] = w
    chars[np.arange(w)[None, :] >= lens[:, None]] = 0
    if kind == "S":
        p = np.ascontiguousarray(chars.astype(np.uint8)).view(f"S{w}").reshape(-1)
    else:
        p = np.ascontiguousarray(chars).view(f"U{w}").reshape(-1)
    return p[rng.integers(0, len(p), n)]


def layout(ctx, a, kinds=("c", "off", "mis", "step", "neg")):
    """An array equal to a, in one of several memory layouts; returns (array, name)."""
    k = ctx.pick(list(kinds))
    return lay(ctx, a, k), k


def lay(ctx, a, k):
    rng = ctx.rng
    n, dt = len(a), a.dtype
    it = dt.itemsize
    if k == "c":
        return np.ascontiguousarray(a).copy()
    if k == "off":  # aligned for the element, not for the vector register
        o = int(rng.integers(1, 9))
        b = np.zeros(n + o + 35, dt)
        b[o:o + n] = a
        return b[o:o + n]
    if k == "mis":  # not even aligned for the element
        o = int(rng.integers(1, 32))
        buf = np.zeros(n * it + o + 8, np.uint8)
        b = buf[o:o + n * it].view(dt)
        b[...] = a
        return b
    if k == "step":
        s = int(rng.integers(2, 5))
        b = np.zeros(max(n, 1) * s, dt)
        if dt.kind in "iuf" and n:
            b[...] = values(ctx, dt, len(b), "mix" if dt.kind in "iu" else "small")
        b = b[::s][:n]
        b[...] = a
        return b
    if k == "neg":
        b = np.ascontiguousarray(a[::-1]).copy()
        return b[::-1]
    if k == "ro":
        b = np.ascontiguousarray(a).copy()
        b.flags.writeable = False
        return b
    raise ValueError(k)


def convert(a, dt):
    """Reference conversion that keeps invalids: only for pairs where every valid value is representable enough."""
    a = np.asarray(a)
    dt = np.dtype(dt)
    if a.dtype == dt:
        return a.copy()
    with np.errstate(all="ignore"):
        if a.dtype.kind == "b":
            return a.astype(dt)
        if dt.kind == "b":
            return a != 0
        m = is_inv(a)
        out = np.where(m, np.zeros(1, a.dtype), a).astype(dt)
        out[m] = inv(dt)
    return out


def same(a, b):
    """Element-wise identical, NaN equal to NaN, and same dtype up to the ambiguous long types; returns mask."""
    if a.dtype.kind == "f":
        return (a == b) | ((a != a) & (b != b))
    return a == b


def first_diff(got, exp, ok=None):
    ok = same(got, exp) if ok is None else ok
    i = np.flatnonzero(~ok.reshape(-1))
    if not len(i):
        return "equal"
    g, e = np.asarray(got).reshape(-1), np.asarray(exp).reshape(-1)
    return f"{len(i)} of {len(g)} differ, first at {int(i[0])}: got {g[i[0]]!r}, expected {e[i[0]]!r}"


def norm(dt):
    """dtype with the ambiguous long types folded."""
    dt = np.dtype(dt)
    return {"l": np.dtype("q"), "L": np.dtype("Q")}.get(dt.char, dt)


def expect(ctx, key, got, exp, detail="", rtol=0, atol=0, dtype=True):
    """The oracle comparison: same kind of array, same length, every element equal (or within rounding)."""
    lazy, detail = detail, type("Lazy", (), {"__format__": lambda self, spec: lazy() if callable(lazy) else lazy})()
    if not isinstance(got, np.ndarray):
        ctx.fail(key + ":type", f"got {type(got).__name__} {str(got)[:80]} for an array; {detail}")
    exp = np.asarray(exp)
    ctx.check(got.shape == exp.shape, key + ":shape", lambda: f"shape {got.shape}, expected {exp.shape}; {detail}")
    if dtype:
        ctx.check(norm(got.dtype) == norm(exp.dtype), key + ":dtype", lambda: f"dtype {got.dtype}, expected {exp.dtype}; {detail}")
    ok = same(got, exp)
    if (rtol or atol) and exp.dtype.kind == "f":
        with np.errstate(all="ignore"):
            ok = ok | (np.abs(got - exp) <= atol + rtol * np.abs(exp))
    ctx.seen("elements", got.size)
    ctx.check(bool(ok.all()), key + ":value", lambda: f"{first_diff(got, exp, ok)}; {detail}")


def threads(ctx, rc, p=0.25):
    """Draws a threading mode for the case; returns a tag. Call threads_reset afterwards (or at the next case)."""
    if ctx.flavour == "rel" or ctx.coin(0.5):
        if ctx.coin(p):
            rc.ThreadingMode(1)
            return "t0"
        rc.ThreadingMode(0)
        if ctx.coin(p):
            k = ctx.pick([1, 2, 3, 7, 31])
            rc.SetThreadWakeUp(k)
            return f"w{k}"
        rc.SetThreadWakeUp(11)
        return "t"
    rc.ThreadingMode(0)
    return "t"
