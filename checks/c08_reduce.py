import math

import numpy as np
import riptide_cpp as rc

import gen
from gen import is_inv

PROPERTY = "C08"
FLAVOURS = {"quick": {"rel": 80000, "asan": 8000}, "thorough": {"rel": 700000, "asan": 90000}}
RULE = ("One case draws a reduction, a dtype, a length around the vector and thread thresholds, a memory layout, a value regime with or "
        "without invalids and a threading mode, and compares the scalar with an exact or double-precision reference. A signature is "
        "(reduction, dtype, layout, length class, invalids none/some/all, threading mode).")
ASSUMPTIONS = ["sums and variances of floats are compared with math.fsum/numpy in double within a rounding bound proportional to the "
               "magnitudes; the value for an empty or all-invalid mean is left open"]

NAMES = {0: "sum", 1: "nansum", 102: "mean", 103: "nanmean", 106: "var", 107: "nanvar", 108: "std", 109: "nanstd", 200: "min",
         201: "nanmin", 202: "max", 203: "nanmax", 204: "argmin", 205: "nanargmin", 206: "argmax", 207: "nanargmax"}
DTS = gen.NUM + gen.FLOATS + gen.LONGS + [np.dtype("g")]


def close(got, exp, tol):
    if exp != exp:
        return got != got
    if math.isinf(exp):
        return got == exp
    return abs(got - exp) <= tol


def call(c, key, x, f, det, *a):
    try:
        return rc.Reduce(x, f, *a)
    except ValueError as e:
        c.check("no valid values" in str(e), key + ":error", lambda: f"{e}; {det}")
        return "novalid"


def case(c):
    f = int(c.pick(list(NAMES)))
    nm = NAMES[f]
    dt = c.pick(DTS)
    n = gen.length(c, big=0.35)
    tm = gen.threads(c, rc)
    x = gen.values(c, dt, n, "side" if dt.kind != "b" and c.coin(0.12) else None)
    if n and c.coin(0.06) and dt.kind != "b":
        x[:] = gen.inv(dt)
    if n > 40 and c.coin(0.1) and dt.kind != "b":  # an extreme at a chosen place
        x[int(c.rng.integers(0, n))] = c.pick([np.inf, -np.inf, 5, -5] if dt.kind == "f" else [np.iinfo(dt).max, 0])
    if n > 40 and c.coin(0.1) and dt.kind != "b":  # a single invalid, or a single valid
        i = int(c.rng.integers(0, n))
        if c.coin():
            x[i] = gen.inv(dt)
        else:
            x[:i] = gen.inv(dt)
            x[i + 1:] = gen.inv(dt)
    k = c.rng.random()
    if k < 0.85:
        xa, lay = gen.layout(c, x)
    elif k < 0.95 and n:
        d = int(c.pick([v for v in (1, 2, 3, 4, 5, 8) if n % v == 0]))
        v = x.reshape(d, n // d)
        lay = c.pick(["2C", "2F", "2step", "2Fstep", "1x"])
        if lay == "2C":
            xa = v.copy()
        elif lay == "2F":
            xa = np.asfortranarray(v)
        elif lay == "1x":
            b = np.ones((1, 2 * n), dt)
            xa = b[:, ::2]
            xa[...] = x.reshape(1, n)
        else:
            b = np.ones((2 * v.shape[0], v.shape[1]) if lay == "2step" else (v.shape[0], 2 * v.shape[1]), dt, order="F")
            xa = b[::2] if lay == "2step" else b[:, ::2]
            xa[...] = v
    elif k < 0.97 and n and dt.itemsize > 1 and dt.char != "g":
        xa, lay = x.astype(dt.newbyteorder()), "swap"
    elif n:
        x = x[:1]
        xa, lay, n = x[0:1].reshape(()).copy(), "0d", 1
    else:
        xa, lay = x.copy(), "c"
    m = is_inv(x)
    nanf = f & 1
    inv_class = "none" if not m.any() else "all" if m.all() else "some"
    c.sig(nm, dt.char, lay, "L" if n > 32768 else n if n < 80 else "M", inv_class, tm)
    det = f"{nm} {dt} n={n} layout {lay} invalids {inv_class} {tm}"
    ddof = 1
    a = ()
    if 106 <= f <= 109 and c.coin(0.3):
        ddof = int(c.pick([0, 1, 2, 5]))
        a = (ddof,)
    keep = xa.tobytes()
    r = call(c, nm, xa, f, det, *a)
    c.check(xa.tobytes() == keep, nm + ":input-changed", lambda: det)
    if r is None:
        c.seen("punted")
        return
    c.check(n > 0, nm + ":empty", lambda: f"answer {r!r} for an empty array; {det}")
    c.seen("computed:" + nm)
    c.sample(det)
    key = f"{nm}"

    def bad(exp):
        return lambda: f"got {r!r}, expected {exp!r}; {det}"
    c.check(lay != "swap", key + ":swapped", lambda: f"computed {r!r} on byte-swapped data; {det}")
    v = x[~m] if nanf else x
    if dt.char == "g" and f < 200 and (np.isfinite(v) & (np.abs(v) > 1e305)).any():
        c.seen("open")  # the result is a double
        return
    if f in (0, 1):
        c.check(isinstance(r, (float if dt.kind == "f" else (int, float))), key + ":type", lambda: f"{type(r)}; {det}")
        if not nanf and m.any():
            if dt.kind == "f":
                c.check(r != r, key + ":nan", bad("nan"))
            elif dt in (np.dtype("Q"), np.dtype("L")):
                c.check(r == 2 ** 64 - 1, key + ":invalid", bad(2 ** 64 - 1))
            else:
                c.check(r == -2 ** 63, key + ":invalid", bad(-2 ** 63))
        elif dt.kind == "f":
            with np.errstate(all="ignore"):
                e = float(np.sum(v.astype("g"))) if len(v) else 0.0
                s = float(np.sum(np.abs(v.astype("g")))) if len(v) else 0.0
            if float(np.abs(v[np.isfinite(v)].astype("g")).sum()) > 1e307:
                c.seen("open")  # partial sums may leave the double range
                return
            c.check(close(r, e, s * 1e-16 * max(1000, n) + 1e-300), key + ":value", bad(e))
        else:
            e = int(v.astype(object).sum()) if dt.itemsize == 8 and len(v) else int(v.sum(dtype="q")) if len(v) else 0
            lo, hi = (0, 2 ** 64) if dt.kind == "u" and dt.itemsize == 8 else (-2 ** 63, 2 ** 63)
            mag = float(np.abs(v.astype("d")).sum()) if len(v) else 0
            if isinstance(r, int) and lo <= e < hi:
                c.check(r == e, key + ":value", bad(e))
            else:
                c.check(close(r, e, mag * 1e-11) and (not lo <= e < hi or abs(e) > 0.999 * 2 ** 63), key + ":value", bad(e))
    elif f <= 109:
        c.check(isinstance(r, float), key + ":type", lambda: f"{type(r)}; {det}")
        if m.any() and not nanf:
            c.check(r != r, key + ":nan", bad("nan"))
            return
        if len(v) == 0:
            c.check(r != r or r == 0, key + ":novalid", bad("nan or 0"))
            return
        with np.errstate(all="ignore"):
            d = v.astype("g")
            mu = d.mean()
            amax = float(np.abs(d).max())
            if 1e150 < amax < np.inf or (f > 103 and 0 < amax < 1e-100):
                c.seen("open")  # squares leave the double range
                return
            if not np.isfinite(amax) and f > 103:
                c.check(r != r or math.isinf(r), key + ":inf", bad("nan or inf"))
                return
            if f <= 103:
                e, tol = float(mu), amax * 1e-16 * max(1000, n) + 1e-300
            else:
                if len(v) <= ddof:
                    c.check(r != r, key + ":ddof", bad("nan"))
                    return
                e = float(((d - mu) ** 2).sum() / (len(d) - ddof))
                k = len(d) / (len(d) - ddof)
                tol = k * (e * 1e-9 + (amax * 1e-16 * max(1000, n)) ** 2)
                if f >= 108:
                    tol = tol / math.sqrt(e) if e > tol else math.sqrt(tol) + math.sqrt(e)
                    e = math.sqrt(e) if e >= 0 else e
        c.check(close(r, e, tol), key + ":value", bad(e))
    elif f <= 203:
        if len(v) == 0 or (m.any() and not nanf):
            e = float("nan") if dt.kind == "f" else int(gen.inv(dt))
        else:
            e = v.min() if f < 202 else v.max()
            e = float(e) if dt.kind == "f" else int(e)
        c.check(isinstance(r, float if dt.kind == "f" else int), key + ":type", lambda: f"{type(r)}; {det}")
        c.check(r == e or (e != e and r != r), key + ":value", bad(e))
    else:
        if nanf and len(v) == 0:
            c.check(r == "novalid", key + ":novalid", bad("an error"))
            return
        c.check(isinstance(r, int), key + ":type", bad("an index"))
        if m.any() and not nanf:
            e = int(np.argmax(m))
        else:
            y = x if not nanf else x[~m]
            i = int(np.argmin(y) if f < 206 else np.argmax(y))
            e = i if not nanf else int(np.flatnonzero(~m)[i])
        c.check(r == e, key + ":value", bad(e))


def other(c):
    """Dtypes the reductions do not support: an answer of None, and no crash."""
    f = int(c.pick(list(NAMES)))
    n = int(c.rng.integers(1, 60))
    k = c.pick(["S5", "U3", "O", "V8", "F", "D", "e", "M8[s]", "m8[s]"])
    x = np.zeros(n, k)
    det = f"{NAMES[f]} {k} n={n}"
    c.sig(NAMES[f], k)
    r = call(c, NAMES[f], x, f, det)
    c.check(r is None or r == "novalid", NAMES[f] + ":unsupported", lambda: f"got {r!r}; {det}")


FAMILIES = [("reduce", 1, case), ("unsupported", 0.02, other)]
