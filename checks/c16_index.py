import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C16"
FLAVOURS = {"quick": {"rel": 40000, "asan": 9000}, "thorough": {"rel": 250000, "asan": 60000}}
RULE = ("One case draws a value array (every dtype, fixed strings, records, complex), an index array (all integer widths, in and out of range, "
        "negative) or a mask (all densities), layouts of both, a default, and a threading mode, and compares with plain numpy indexing. "
        "A signature is (operation, value dtype, index dtype, layouts, length classes, threading mode).")
ASSUMPTIONS = ["signed indexes count from the end as in Python (-n..n-1); anything else takes the default (the dtype's invalid value, or the "
               "default given)", "SetItem and PutMask may decline (answer False) any call, but then must not touch the array"]

VALS = gen.NUMX + [np.dtype("g")] + gen.FLOATS + [np.dtype("M8[ns]"), np.dtype("m8[ns]"), np.dtype("F"), np.dtype("D")]
VOIDS = [np.dtype([("a", "i1"), ("b", "f8")]), np.dtype([("a", "i4"), ("b", "i4")]), np.dtype("V3"), np.dtype("V16"), np.dtype("V24")]
L2 = ["c", "c", "off", "mis", "step", "neg", "ro"]


def cls(n):
    return "L" if n > 32768 else "M" if n > 300 else n // 16


def vals(c, n, kinds="nnnnnnSUx"):
    k = c.pick(kinds)
    if k == "n":
        dt = c.pick(VALS)
        if dt.char in "Mm":
            return gen.values(c, np.dtype("q"), n).view(dt)
        if dt.char in "FD":
            x = np.zeros(n, dt)
            x.real = gen.values(c, np.dtype("d"), n, "small")
            x.imag = gen.values(c, np.dtype("d"), n, "small")
            return x
        return gen.values(c, dt, n)
    if k == "x":
        dt = c.pick(VOIDS)
        return np.frombuffer(c.rng.bytes(n * dt.itemsize), dt).copy() if n else np.zeros(0, dt)
    return gen.strings(c, k, n)


def raw(a):
    """Bytes of each element, so that any dtype can be compared."""
    a = np.ascontiguousarray(a).reshape(-1)
    b = a.view(np.uint8).reshape(len(a), -1) if a.itemsize and len(a) else np.zeros((len(a), a.itemsize), np.uint8)
    if a.dtype.char in "gG" and len(a):
        b = b.reshape(len(a), -1, 16)[:, :, :10].reshape(len(a), -1)
    return b


def eq(c, key, got, exp, det, dt=None):
    if not isinstance(got, np.ndarray):
        c.fail(key + ":type", f"got {type(got).__name__} {str(got)[:80]}; {det}")
    c.check(got.shape == exp.shape, key + ":shape", lambda: f"shape {got.shape}, expected {exp.shape}; {det}")
    c.check(got.itemsize == exp.itemsize and got.dtype.kind == exp.dtype.kind, key + ":dtype", lambda: f"{got.dtype}, expected {exp.dtype}; {det}")
    a, b = raw(got), raw(exp)
    ok = (a == b).all(axis=1)
    if not ok.all() and exp.dtype.kind in "f":
        ok |= (got != got) & (exp != exp)
    c.seen("elements", len(a))
    if not ok.all():
        i = int(np.flatnonzero(~ok)[0])
        c.fail(key + ":value", f"{int((~ok).sum())} of {len(ok)} differ, first at {i}: got {got[i]!r}, expected {exp[i]!r}; {det}")


def lay(c, x, kinds=L2):
    k = c.pick(kinds)
    return gen.lay(c, x, k), k


def default_of(dt):
    if dt.kind in "iu":
        return gen.inv(dt)
    if dt.kind == "M" or dt.kind == "m":
        return np.array(-2 ** 63, "q").view(dt)[()]
    if dt.kind in "fc":
        return np.nan
    return np.zeros((), dt)[()]


def mbget(c):
    nv = gen.length(c, big=0.1, huge=0.01)
    n = gen.length(c, big=0.25, huge=0.02)
    v = vals(c, nv)
    idt = c.pick(gen.INTS + gen.LONGS + [np.dtype("i"), np.dtype("q")])
    ii = np.iinfo(idt)
    mode = c.pick(["in", "in", "neg", "mix", "edge", "full"])
    lo, hi = max(ii.min, -nv), min(ii.max, nv - 1)
    if mode == "in" and nv:
        ix = c.rng.integers(0, hi, n, endpoint=True)
    elif mode == "neg" and nv:
        ix = c.rng.integers(lo, hi, n, endpoint=True)
    elif mode == "full":
        ix = c.rng.integers(ii.min, ii.max, n, dtype=idt, endpoint=True)
    elif mode == "edge":
        e = [x for x in (-nv - 1, -nv, -nv + 1, -1, 0, 1, nv - 1, nv, nv + 1, ii.min, ii.max, nv - 256, nv + 256, 2 ** 31, 2 ** 32, 2 ** 63 - 1)
             if ii.min <= x <= ii.max]
        ix = np.array(e, idt)[c.rng.integers(0, len(e), n)]
    else:
        ix = c.rng.integers(max(ii.min, -nv - 5), min(ii.max, nv + 5), n, endpoint=True)
    ix = ix.astype(idt)
    va, lv = lay(c, v)
    ia, li = lay(c, ix)
    tm = gen.threads(c, rc)
    p = [int(x) for x in ix] if n < 50 and False else ix
    if idt.kind == "i":
        q = p.astype("q")
        ok = (q >= -nv) & (q < nv)
        q = np.where(q < 0, q + nv, q)
    else:
        ok = p < np.uint64(nv)
        q = np.where(ok, p, 0).astype("q")
    d = default_of(v.dtype)
    args = ()
    if c.coin(0.3):
        args, d = default_arg(c, v.dtype, d)
    exp = np.empty(n, v.dtype)
    if n:
        exp[:] = d
        if not args and v.dtype.kind == "V":
            exp = np.zeros(n, v.dtype)
    exp[ok] = v[q[ok]]
    det = f"mbget {v.dtype} {lv} nv={nv} index {idt} {li} n={n} {mode} default {args} {tm}"
    c.sig("mbget", v.dtype.str[1:], idt.char, lv, li, cls(n), cls(nv), mode, len(args), tm)
    keep = va.tobytes(), ia.tobytes()
    try:
        got = rc.MBGet(va, ia, *args)
    except ValueError as e:
        c.check(v.dtype.kind in "Vc" and False, "mbget:refused", f"{e}; {det}")
    if v.dtype.kind in "c" and not ok.all():  # what a complex default is is open
        got, exp = got[ok] if isinstance(got, np.ndarray) and got.shape == exp.shape else got, exp[ok]
    eq(c, "mbget", got, exp, det)
    c.check((va.tobytes(), ia.tobytes()) == keep, "mbget:input-changed", det)
    c.sample(det)


def default_arg(c, dt, d):
    if dt.kind in "iu":
        k = int(c.pick([0, 1, 5, 100]))
        return (k,), k
    if dt.kind == "f":
        k = float(c.pick([0.0, -1.5, 7.0]))
        return (k,), k
    if dt.kind == "b":
        k = c.coin()
        return (k,), k
    return (None,), d


def mask(c, n):
    p = c.pick([0.0, 0.01, 0.1, 0.5, 0.9, 0.99, 1.0, "runs"])
    if p == "runs" and n:
        m = np.zeros(n, bool)
        e = np.sort(c.rng.integers(0, n + 1, 2 * int(c.rng.integers(1, 5))))
        for a, b in zip(e[::2], e[1::2]):
            m[a:b] = True
        return m
    return c.rng.random(n) < (0.5 if p == "runs" else p)


def two_d(c, *arrs):
    """The same arrays folded into two dimensions, each in its own memory order."""
    n = len(arrs[0])
    ds = [k for k in (1, 2, 3, 4, 5, 7, 8, 16) if n and n % k == 0]
    if not ds or c.coin(0.93):
        return None
    d = c.pick(ds)
    out = []
    for a in arrs:
        a = a.copy().reshape(d, -1)
        k = c.pick(["C", "F", "sub", "subF"])
        if k == "F":
            a = np.asfortranarray(a)
        elif k[:3] == "sub":
            w = np.zeros((a.shape[0] + 1, a.shape[1] * 2 + 1), a.dtype, order=k[3:] or "C")
            w = w[1:, 1::2]
            w[...] = a
            a = w
        out.append((a, "2" + k))
    return out


def boolidx(c):
    n = gen.length(c, big=0.3, huge=0.03)
    v, m = vals(c, n), mask(c, n)
    t = two_d(c, v, m)
    (va, lv), (ma, lm) = t or (lay(c, v), lay(c, m))
    tm = gen.threads(c, rc)
    f = c.pick([rc.BooleanIndex, rc.BooleanIndex, rc.MBGet])
    det = f"{f.__name__} {v.dtype} {lv} mask {lm} n={n} true={int(m.sum())} {tm}"
    c.sig("boolidx", v.dtype.str[1:], lv, lm, cls(n), min(int(m.sum() * 10 // max(n, 1)), 9), tm)
    keep = va.tobytes(), ma.tobytes()
    try:
        got = f(va, ma)
    except ValueError as e:
        c.check(t is not None, "boolidx:refused", f"{e}; {det}")
        c.seen("refused-2d")
        return
    eq(c, "boolidx", got, v[m], det)
    c.check((va.tobytes(), ma.tobytes()) == keep, "boolidx:input-changed", det)
    if n and c.coin(0.1):
        try:
            f(v, m[:-1])
            c.fail("boolidx:length", det)
        except ValueError:
            c.seen("length-refused")


def boolsum(c):
    n = gen.length(c, big=0.3, huge=0.03)
    m = mask(c, n)
    t = two_d(c, m)
    (ma, lm), = t or (lay(c, m),)
    tm = gen.threads(c, rc)
    k = c.pick(["sum", "fancy", "both"])
    det = f"{k} mask {lm} n={n} true={int(m.sum())} {tm}"
    c.sig(k, lm, cls(n), min(int(m.sum() * 10 // max(n, 1)), 9), tm)
    try:
        if k == "sum":
            got = rc.BooleanSum(ma)
        else:
            got = rc.BooleanToFancy(ma, both=True) if k == "both" else rc.BooleanToFancy(ma)
    except ValueError as e:
        c.check(t is not None, "boolsum:refused", f"{e}; {det}")
        c.seen("refused-2d")
        return
    c.check(ma.reshape(-1).tobytes() == m.tobytes(), "boolsum:input-changed", det)
    if k == "sum":
        c.check(got == int(m.sum()), "boolsum", lambda: f"got {got}; {det}")
        return
    e = np.flatnonzero(m).astype("i4")
    if k == "both":
        c.check(isinstance(got, tuple) and len(got) == 2 and got[1] == len(e), "fancy:count", lambda: f"{got[1]}; {det}")
        got, e = got[0], np.concatenate([e, np.flatnonzero(~m).astype("i4")])
    gen.expect(c, k, got, e, det)


def guarded(c, x):
    """x inside a wider buffer, to see writes outside."""
    k = c.pick(["c", "c", "step", "neg", "mis"])
    n = len(x)
    if k == "mis":
        o = int(c.rng.integers(1, 16))
        b = np.full((n + 4) * x.itemsize + o + 8, 0xA5, np.uint8)
        v = b[o + 2 * x.itemsize:][:n * x.itemsize].view(x.dtype)
    elif k == "step":
        s = int(c.rng.integers(2, 4))
        b = np.full((n * s + 8) * x.itemsize, 0xA5, np.uint8)
        v = b.view(x.dtype)[4:][::s][:n]
    elif k == "neg":
        b = np.full((n + 8) * x.itemsize, 0xA5, np.uint8)
        v = b.view(x.dtype)[4:4 + n][::-1]
    else:
        b = np.full((n + 8) * x.itemsize, 0xA5, np.uint8)
        v = b.view(x.dtype)[4:4 + n]
    v[...] = x
    return b, v, k


def after(b, v, exp):
    """The whole buffer as it should be after v becomes exp."""
    old = v.copy()
    v[...] = exp
    e = b.copy()
    v[...] = old
    return e


def setitem(c):
    n = gen.length(c, lo=1, big=0.3, huge=0.02)
    v, m = vals(c, n, "nnnnnSUx"), mask(c, n)
    k = int(m.sum())
    one = c.coin(0.3)
    src = vals(c, n, "n").astype(v.dtype) if v.dtype.kind in "biuf" and c.coin(0.5) and False else v[c.rng.integers(0, n, 1 if one else k)]
    bad = c.coin(0.05)
    if bad:
        src = np.resize(src, len(src) + 2) if len(src) else v[:1]
    b, va, lv = guarded(c, v)
    ma, lm = lay(c, m)
    sa, ls = lay(c, src)
    ro = c.coin(0.03)
    swap = c.coin(0.04) and v.dtype.kind in "iuf" and v.dtype.itemsize in (2, 4, 8)
    if swap:
        w = c.pick([0, 1])
        if w:
            sa = src.astype(v.dtype.newbyteorder())
        else:
            b = v.astype(v.dtype.newbyteorder()).copy()
            va, lv = b, "swap"
    if ro:
        va.flags.writeable = False
    tm = gen.threads(c, rc)
    det = f"setitem {va.dtype} {lv} mask {lm} values {sa.dtype} {ls} x{len(src)} n={n} true={k} readonly={ro} {tm}"
    c.sig("setitem", v.dtype.str[1:], lv, lm, ls, cls(n), len(src) == 1, ro, swap, bad, tm)
    before = b.tobytes()
    keep = ma.tobytes(), sa.tobytes()
    got = rc.SetItem(va, ma, sa)
    c.check(got is True or got is False, "setitem:type", det)
    c.check((ma.tobytes(), sa.tobytes()) == keep, "setitem:input-changed", det)
    if not got:
        c.seen("setitem-declined")
        c.check(b.tobytes() == before, "setitem:declined-but-wrote", det)
        if not (ro or swap or bad) and (lv, lm) == ("c", "c") and ls in "c" and n > 1 and len(src) == k and k > 1:
            c.fail("setitem:declined", det)  # the plain case is what it exists for
        return
    c.check(not ro, "setitem:readonly-written", det)
    c.check(len(src) in (1, k), "setitem:length-accepted", det)
    w = v.copy()
    w[m] = src
    vw = va
    exp = np.frombuffer(before, b.dtype).copy()
    if lv == "swap":
        exp = w.astype(va.dtype)
    else:
        p = va.__array_interface__["data"][0] - b.__array_interface__["data"][0]
        e = np.ndarray(va.shape, va.dtype, exp, p, va.strides)
        e[m] = src
    c.seen("elements", n)
    if raw(b).tobytes() != raw(exp).tobytes():
        eq(c, "setitem", va.copy(), w, det)
        c.fail("setitem:outside", f"bytes outside the array changed; {det}")


def overlap(c):
    """Values that are a view of the array being set."""
    n = gen.length(c, lo=2, big=0.1, huge=0)
    dt = c.pick(gen.NUM)
    base = gen.values(c, dt, n + 64, "full" if dt.kind in "iu" else None)
    o, p = int(c.rng.integers(0, 32)), int(c.rng.integers(0, 32))
    w = c.pick(["set", "put"])
    a, src = base[o:o + n], base[p:p + n]
    if w == "put" and dt.itemsize > 1 and c.coin(0.3):
        src = base.view(np.uint8)[p:p + n]
    m = mask(c, n)
    if w == "set":
        src = src[:int(m.sum())]
    det = f"overlap {w} {dt} offsets {o} {p} n={n} values {src.dtype} true={int(m.sum())}"
    c.sig("overlap", w, dt.char, src.dtype.char, cls(n), int(np.sign(o - p)))
    exp = base.copy()
    vals_, keep = src.copy(), base.tobytes()
    if w == "set":
        exp[o:o + n][m] = vals_
        got = rc.SetItem(a, m, src)
    else:
        exp[o:o + n][m] = gen.convert(vals_, dt)[m]
        got = rc.PutMask(a, m, src)
    if got:
        gen.expect(c, "overlap", base, exp, det)
    else:
        c.seen("overlap-declined")
        c.check(base.tobytes() == keep, "overlap:declined-but-wrote", det)


def putmask(c):
    n = gen.length(c, lo=1, big=0.3, huge=0.02)
    dt = c.pick(gen.NUMX)
    v, m = gen.values(c, dt, n), mask(c, n)
    st = dt if c.coin(0.4) else c.pick(gen.NUMX)
    bad = c.coin(0.05)
    src = gen.values(c, st, n + (1 if bad else 0), "dense" if st != dt and st.kind != "b" else None)
    if st != dt and st.kind == "f" and dt.kind in "iu" and len(src):
        src = np.abs(np.round(src))
    if st.kind == "i" and dt.kind == "u":
        src = np.where(gen.is_inv(src), src, np.abs(src)).astype(st)
    b, va, lv = guarded(c, v)
    ma, lm = lay(c, m)
    sa, ls = lay(c, src)
    ro = c.coin(0.03)
    swap = c.pick(["", "arr", "val"]) if c.coin(0.06) and dt.itemsize > 1 and st.itemsize > 1 else ""
    two = None
    if swap == "val":
        sa = src.astype(st.newbyteorder())
    elif swap == "arr":
        b = v.astype(dt.newbyteorder())
        va, lv = b, "swap"
    elif not bad:
        two = two_d(c, v, m, src)
        if two:
            (va, lv), (ma, lm), (sa, ls) = two
            b = va if va.base is None else va.base
            while b.base is not None:
                b = b.base
    if ro:
        va.flags.writeable = False
    tm = gen.threads(c, rc)
    det = f"putmask {va.dtype} {lv} mask {lm} values {sa.dtype} {ls} x{len(src)} n={n} readonly={ro} {tm}"
    c.sig("putmask", dt.char, st.char, lv, lm, ls, cls(n), ro, swap, bad, tm)
    before = b.copy(order="K")
    keep = ma.tobytes(), sa.tobytes()
    got = rc.PutMask(va, ma, sa)
    c.check(got is True or got is False, "putmask:type", det)
    c.check((ma.tobytes(), sa.tobytes()) == keep, "putmask:input-changed", det)
    if not got:
        c.seen("putmask-declined")
        c.check(b.tobytes() == before.tobytes(), "putmask:declined-but-wrote", det)
        if not (ro or swap or bad or two) and (lv, lm, ls) == ("c", "c", "c"):
            c.fail("putmask:declined", det)
        return
    c.check(not ro, "putmask:readonly-written", det)
    c.check(not bad, "putmask:length-accepted", det)
    w = v.copy()
    conv = gen.convert(src, dt)
    w[m] = conv[m]
    g = np.ascontiguousarray(va).reshape(-1).astype(dt)
    gen.expect(c, "putmask", g, w, det)
    if lv != "swap":
        cur = va.copy()
        va[...] = v.reshape(va.shape)
        c.check(b.tobytes() == before.tobytes(), "putmask:outside", det)


def reindex(c):
    n = gen.length(c, lo=1, big=0.3, huge=0.02)
    v = vals(c, n, "nnnnSU")
    idt = c.pick([np.dtype(x) for x in "iqiqfd"] + gen.INTS)
    ix = c.rng.integers(0, min(n, 120 if idt.itemsize == 1 else 30000 if idt.itemsize == 2 else n), n).astype(idt)
    tm = gen.threads(c, rc)
    (va, lv), (ia, li) = lay(c, v), lay(c, ix)
    det = f"reindex {v.dtype} {lv} index {idt} {li} n={n} {tm}"
    c.sig("reindex", v.dtype.str[1:], idt.char, lv, li, cls(n), tm)
    try:
        got = rc.ReIndex(ia, va)
    except ValueError as e:
        c.check(idt.char not in "iqIQ" or v.dtype.char in "MmFD", "reindex:refused", f"{e}; {det}")
        c.seen("reindex-refused:" + idt.char)
        return
    if got is None:
        c.seen("reindex-none:" + idt.char)
        c.fail("reindex:none", det)
    eq(c, "reindex", got, v[ix.astype("q")], det)


def reverse(c):
    n = gen.length(c, big=0.3, huge=0.02)
    idt = c.pick([np.dtype(x) for x in "bhiqiqlBIQd"])
    if idt.itemsize == 1:
        n = min(n, 127)
    if idt.itemsize == 2:
        n = min(n, 32767)
    p = c.rng.permutation(n).astype(idt)
    a, l = lay(c, p)
    tm = gen.threads(c, rc)
    det = f"reverse {idt} {l} n={n} {tm}"
    c.sig("reverse", idt.char, l, cls(n), tm)
    try:
        got = rc.ReverseShuffle(a)
    except ValueError as e:
        c.check(idt.kind != "i" or l in ("step", "neg"), "reverse:refused", f"{e}; {det}")
        c.seen("reverse-refused")
        return
    e = np.empty(n, idt)
    e[p.astype("q")] = np.arange(n).astype(idt)
    gen.expect(c, "reverse", got, e, det)
    c.check(a.tobytes() == p.tobytes(), "reverse:input-changed", det)


def groups(c):
    """ReIndexGroups: each partition of a stacked key is renumbered through its own slice of the unique map."""
    k = int(c.rng.integers(1, 8))
    idt = c.pick([np.dtype(x) for x in "bhiq"])
    lens = c.rng.integers(0, c.pick([3, 50, 400]), k)
    us = c.rng.integers(0, 30, k)
    n, u = int(lens.sum()), int(us.sum())
    if c.coin(0.1) and c.flavour == "rel":
        lens[0] += 70000
        n = int(lens.sum())
    uk = c.rng.integers(0, 120, u).astype("i4")
    ik = np.concatenate([c.rng.integers(-1 if c.coin(0.1) else 0, w + 1 + (3 if c.coin(0.1) else 0), m) for w, m in zip(us, lens)]).astype(idt)
    exp = np.zeros(n, idt)
    s = p = 0
    for w, m in zip(us, lens):
        x = ik[p:p + m].astype("q")
        ok = (x > 0) & (x <= u - s)
        e = np.zeros(m, idt)
        e[ok] = uk[s + x[ok] - 1]
        exp[p:p + m] = e
        s, p = s + w, p + m
    tm = gen.threads(c, rc)
    det = f"reindexgroups {idt} lens={lens.tolist()} uniques={us.tolist()} {tm}"
    c.sig("groups", idt.char, k, cls(n), tm)
    a = ik.copy()
    got = rc.ReIndexGroups(a, uk, np.cumsum(us).astype("q"), np.cumsum(lens).astype("q"))
    gen.expect(c, "groups", got, exp, det)


def where(c):
    n = gen.length(c, lo=2, big=0.3, huge=0.02)
    x = vals(c, n, "nnnnnSUx")
    dt = x.dtype
    y = x[c.rng.permutation(n)] if dt.kind in "SUV" or dt.char in "MmFD" else gen.values(c, dt, n)
    m = mask(c, n)
    mode = c.pick(["aa", "aa", "as", "sa", "ss"])
    if dt.kind == "V" or dt.char in "MmFDg":
        mode = "aa"

    def scalar(v):
        k = v[int(c.rng.integers(0, n))]
        return (np.full(n, k, dt), bool(k) if dt.kind == "b" else int(k) if dt.kind in "iu" else float(k) if dt.kind == "f" else bytes(
            k) if dt.kind == "S" else str(k))
    xv, xs = scalar(x) if mode[0] == "s" else (x, None)
    yv, ys = scalar(y) if mode[1] == "s" else (y, None)
    (xa, lx), (ya, ly), (ma, lm) = lay(c, xv), lay(c, yv), lay(c, m)
    if mode == "aa" and c.coin(0.03):
        t = two_d(c, x, y, m)
        if t:
            (xa, lx), (ya, ly), (ma, lm) = t
    tm = gen.threads(c, rc)
    a, b = xa if xs is None else xs, ya if ys is None else ys
    det = f"where {dt} {mode} {lx} {ly} cond {lm} n={n} true={int(m.sum())} {tm}"
    c.sig("where", dt.str[1:], mode, lx, ly, lm, cls(n), tm)
    keep = xa.tobytes(), ya.tobytes(), ma.tobytes()
    try:
        got = rc.Where(ma, (a, b), dt.num, dt.itemsize)
    except ValueError as e:
        c.check(dt.kind == "V" or dt.char in "MmFD", "where:refused", f"{e}; {det}")
        c.seen("where-refused")
        return
    c.check((xa.tobytes(), ya.tobytes(), ma.tobytes()) == keep, "where:input-changed", det)
    if got is None:
        c.check(dt.kind == "V" or dt.char in "MmFDg" or lm[0] == "2", "where:declined", det)
        c.seen("where-declined:" + dt.char)
        return
    if dt.char in "Mm":
        got = got.view(dt)
    eq(c, "where", got, np.where(m, xv, yv), det)


def hstack(c):
    k = int(c.rng.integers(1, 7))
    n = gen.length(c, big=0.15, huge=0.01)
    parts, lays = [], []
    dt = c.pick(gen.NUMX + [np.dtype("g")] + gen.FLOATS)
    s = c.pick(["", "", "S", "U"])
    for i in range(k):
        m = int(c.pick([0, 1, n, int(c.rng.integers(0, n + 1)), int(c.rng.integers(0, 20))]))
        x = gen.strings(c, s, m) if s else gen.values(c, dt, m)
        a, l = lay(c, x)
        parts.append((x, a))
        lays.append(l)
    tm = gen.threads(c, rc)
    det = f"hstack {[x.dtype.str for x, _ in parts]} lengths {[len(x) for x, _ in parts]} {lays} {tm}"
    c.sig("hstack", s or dt.char, k, cls(sum(len(x) for x, _ in parts)), lays[0], tm)
    got = rc.HStack([a for _, a in parts] if c.coin() else tuple(a for _, a in parts))
    eq(c, "hstack", got, np.concatenate([x for x, _ in parts]), det)


def shift(c):
    k = int(c.rng.integers(1, 4))
    arrs, exp, dets = [], [], []
    sh = 0
    n = gen.length(c, big=0.1, huge=0)
    s = int(c.pick([0, 1, -1, 2, -3, n // 2, -(n // 3), n - 1, n, n + 3, -n, 7]))
    for i in range(k):
        x = vals(c, n if i == 0 else int(c.rng.integers(0, 100)))
        if len(x) % 3 == 0 and c.coin(0.3) and x.dtype.kind != "V" and len(x):
            a = np.asfortranarray(x.reshape(-1, 3))
            e = a.copy(order="F")
            m = len(a)
            if a.flags.c_contiguous:
                a, e, m = x.copy(), x.copy(), len(x)
        else:
            a = gen.lay(c, x, c.pick(["c", "off", "mis"]))
            e, m = x.copy(), len(x)
        r = m - abs(s)
        if r > 0 and s >= 0:
            e[:r] = e[s:s + r].copy()
        elif r > 0:
            e[-s:] = e[:r].copy()
        arrs.append(a)
        exp.append(e)
        dets.append((x.dtype.str, a.shape))
    tm = gen.threads(c, rc)
    det = f"shift {s} {dets} {tm}"
    c.sig("shift", k, int(np.sign(s)), arrs[0].dtype.str, cls(n), arrs[0].ndim, tm)
    try:
        rc.ShiftArrays(arrs, s)
    except ValueError as e:
        c.check(any(a.dtype.char in "VMmFD" for a in arrs), "shift:refused", f"{e}; {det}")
        c.seen("shift-refused")
        return
    for a, e in zip(arrs, exp):
        eq(c, "shift", np.ascontiguousarray(a).reshape(-1), np.ascontiguousarray(e).reshape(-1), det)


def shift_view(c):
    """A view that cannot be shifted in place is refused, or really shifted; nothing else changes."""
    n = int(c.rng.integers(4, 60))
    b = np.arange(n * 2, dtype=c.pick("ihqd"))
    w = c.pick(["step", "ro", "sub2d"])
    a = b[::2] if w == "step" else b[:n] if w == "ro" else b[:2 * (n // 2) * 2].reshape(-1, 4)[:, :3] if n > 4 else b[::2]
    if w == "ro":
        a.flags.writeable = False
    c.sig("shift_view", w, b.dtype.char)
    keep, e = b.copy(), a.copy()
    e.reshape(-1)[:-2] = a.reshape(-1)[2:]
    try:
        rc.ShiftArrays([a], 2)
    except ValueError:
        c.seen("shift-view-refused")
        c.check((b == keep).all(), "shift:refused-but-wrote", w)
        return
    c.check((a == e).all() and w != "ro", "shift:view", f"{w} {b.dtype} n={n}")


FAMILIES = [("where", 1.5, where), ("hstack", 0.8, hstack), ("shift", 0.5, shift), ("shift_view", 0.1, shift_view), ("mbget", 3, mbget), ("boolidx", 2, boolidx), ("boolsum", 1.2, boolsum), ("setitem", 1.5, setitem), ("putmask", 1.5, putmask),
            ("reindex", 0.8, reindex), ("reverse", 0.6, reverse), ("groups", 0.4, groups), ("overlap", 0.3, overlap)]
