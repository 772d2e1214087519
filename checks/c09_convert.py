import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C09"
FLAVOURS = {"quick": {"rel": 50000, "asan": 8000}, "thorough": {"rel": 400000, "asan": 60000}}
RULE = ("One case draws a conversion (ConvertSafe, ConvertUnsafe, PutMask, HStack, HomogenizeArrays, GetUpcastNum, RemoveTrailingSpaces), a "
        "pair of dtypes, values at the limits of both, a length around the thread threshold and a layout of one to three dimensions, and "
        "compares every element with numpy's cast plus the invalid rule. A signature is (operation, dtypes, layout, length class, threads).")
ASSUMPTIONS = ["a number the target cannot represent is judged only where C defines the cast: integers wrap, floats round; a finite float outside "
               "an integer target is open", "a bool target has no invalid: it is whether the value differs from zero"]

DTS = gen.NUM + gen.LONGS + [np.dtype("g")]
LAYS = ("c", "c", "off", "mis", "step", "neg", "ro")


def cls(n):
    return "0" if n == 0 else "1" if n == 1 else "<300" if n < 300 else "<16k" if n < 16384 else "<32k" if n < 32768 else "big"


def swap(c, a, p=0.06):
    if a.dtype.itemsize > 1 and a.dtype.char != "g" and c.coin(p):
        return a.astype(a.dtype.newbyteorder(">")), "swapped"
    return gen.layout(c, a, LAYS)


def limits(c, a, b, n):
    """n values of dtype a, many of them at the limits of dtype b."""
    x = gen.values(c, a, n)
    if n and a.kind != "b" and c.coin(0.6):
        v = []
        if b.kind in "iu":
            ii = np.iinfo(b)
            v += [ii.min, ii.min + 1, ii.max, ii.max - 1, -1, 0, 1, 255, 256, 2**53, 2**53 + 1, 2**24 + 1, -2**24 - 1]
        elif b.kind == "f":
            v += [2**24 - 1, 2**24, 2**24 + 1, 2**24 + 3, 2**53 - 1, 2**53, 2**53 + 1, 2**53 + 3, -2**53 - 1, 2**63 - 513, 2**63 - 1]
        if a.kind in "iu":
            ai = np.iinfo(a)
            v = [w for w in v if ai.min <= w <= ai.max]
        else:
            v += [0.5, -0.5, 1.5, 2.5, 0.99999999, -0.0, np.inf, -np.inf, np.nan, 1e-300, 3.4028235677973366e38, 3.4028234e38, 1e-45, 1e-46]
        if v:
            with np.errstate(all="ignore"):
                p = np.array([a.type(w) for w in v], a)
            i = c.rng.random(n) < c.pick([0.1, 0.5, 1.0])
            x[i] = p[c.rng.integers(0, len(p), int(i.sum()))]
    return x


def model(x, b, safe):
    """(expected, judged mask)"""
    a = x.dtype
    ok = np.ones(x.shape, bool)
    if gen.norm(a) == gen.norm(b):
        return x.astype(b), ok
    with np.errstate(all="ignore"):
        if b.kind == "b":
            return x != 0, ok
        if a.kind == "f" and b.kind in "iu":
            fin = np.isfinite(x)
            ii = np.iinfo(b)
            t = np.trunc(np.where(fin, x, 0))
            # 2^k bounds are exact in every float
            inside = (t >= a.type(ii.min)) & (t < a.type(2.0) ** (b.itemsize * 8 - (b.kind == "i")))
            out = np.where(inside, t, 0).astype(b)
            ok = inside & fin
            if safe:
                out[~fin] = gen.inv(b)
                ok = ok | ~fin
            return out, ok
        out = x.astype(b)
        if safe and a.kind in "iu":
            out[gen.is_inv(x)] = gen.inv(b)
    return out, ok


def judge(c, key, got, x, b, safe, det):
    want, ok = model(x, b, safe)
    if not isinstance(got, np.ndarray):
        c.fail(key + ":type", lambda: f"got {type(got).__name__}; {det()}")
    c.check(got.shape == x.shape and gen.norm(got.dtype) == gen.norm(b), key + ":shape", lambda: f"{got.dtype} {got.shape}; {det()}")
    c.seen("converted", x.size)
    good = gen.same(got, want)
    if b.kind == "f":
        good = good & ((np.signbit(got) == np.signbit(want)) | (want != want))
    good = good | ~ok
    c.check(bool(good.all()), key + ":value", lambda: f"{gen.first_diff(got, want, good)}; {det()}")


def convert(c):
    safe = c.coin(0.7)
    a, b = c.pick(DTS), c.pick(DTS)
    n = gen.length(c, big=0.15, huge=0.02)
    x = limits(c, a, b, n)
    tm = gen.threads(c, rc)
    k = c.rng.random()
    if k < 0.6 or n == 0:
        xa, lay = swap(c, x)
    elif k < 0.63:
        x = x[:1].reshape(())
        xa, lay = x.copy(), "0d"
    else:
        if n > 4000:
            n = n % 4000 + 1
            x = x[:n]
        f = [v for v in (1, 2, 3, 4, 6, 8, 16) if n % v == 0]
        d = int(c.pick(f))
        shape = (n // d, d)
        if c.coin(0.3):
            e = int(c.pick([v for v in f if shape[0] % v == 0]))
            shape = (shape[0] // e, e, d)
        if c.coin():
            shape = shape[::-1]
        x = x.reshape(shape)
        lay = c.pick(["C", "F", "rows", "cols", "both", "Frows", "Fcols", "T", "rev", "revall", "swapped", "mid"])
        if lay == "C":
            xa = x.copy()
        elif lay == "F":
            xa = np.asfortranarray(x)
        elif lay == "T":
            xa = np.ascontiguousarray(x.T).T
        elif lay == "swapped" and a.itemsize > 1 and a.char != "g":
            xa = x.astype(a.newbyteorder(">"))
        else:
            st = [1] * x.ndim
            if lay in ("rows", "both", "Frows"):
                st[0] = int(c.pick([2, 3]))
            if lay in ("cols", "both", "Fcols"):
                st[-1] = int(c.pick([2, 3]))
            if lay == "mid":
                st[x.ndim // 2] = 2
            if lay in ("rev", "revall"):
                st[0] = -1
                if lay == "revall":
                    st = [-1] * x.ndim
            pad = int(c.pick([0, 0, 1]))
            big = gen.values(c, a, int(np.prod([s * abs(t) + pad for s, t in zip(shape, st)]))).reshape([s * abs(t) + pad for s, t in zip(shape, st)])
            if lay[0] == "F":
                big = np.asfortranarray(big)
            xa = big[tuple(slice(None, None, t) for t in st)][tuple(slice(0, s) for s in shape)]
            xa[...] = x
    name = "safe" if safe else "unsafe"
    c.sig(name, a.char, b.char, lay, x.ndim, cls(x.size), tm)
    det = lambda: f"{name} {a}->{b} shape {x.shape} {lay} strides {xa.strides} {tm}"
    c.sample(det())
    before = xa.tobytes()
    got = (rc.ConvertSafe if safe else rc.ConvertUnsafe)(xa, b.num)
    if lay == "0d" and isinstance(got, np.ndarray) and got.shape == (1,):  # a 0-d array may come back with one dimension
        got = got.reshape(())
    judge(c, name, got, x, b, safe, det)
    c.check(xa.tobytes() == before, name + ":input", det)
    if x.ndim > 1 and (xa.flags.c_contiguous or xa.flags.f_contiguous):
        c.check((not xa.flags.c_contiguous or got.flags.c_contiguous) and (not xa.flags.f_contiguous or got.flags.f_contiguous), name + ":order",
                lambda: f"{got.flags.c_contiguous} {got.flags.f_contiguous}; {det()}")


def putmask(c):
    a, b = c.pick(DTS), c.pick(DTS)
    n = gen.length(c, big=0.1, huge=0.01)
    x = limits(c, a, b, n)
    m = c.rng.random(n) < c.pick([0, 0.1, 0.5, 1.0])
    dst = gen.values(c, b, n)
    tm = gen.threads(c, rc)
    xa, lx = gen.layout(c, x, ("c", "off", "step", "neg"))
    d = dst.copy()
    c.sig("putmask", a.char, b.char, lx, cls(n), tm)
    det = lambda: f"putmask {a}->{b} n={n} {lx} {tm}"
    done = rc.PutMask(d, m, xa)
    if not done:
        c.seen("putmask declined")
        c.check(d.tobytes() == dst.tobytes(), "putmask:declined", det)
        return
    want, ok = model(x, b, True)
    want = np.where(m, want, dst)
    good = gen.same(d, want) | (m & ~ok)
    c.seen("converted", n)
    c.check(bool(good.all()), "putmask:value", lambda: f"{gen.first_diff(d, want, good)}; {det()}")


def values_of(c, dts, n):
    return [gen.values(c, d, n) for d in dts]


def holds(t, dts):
    """Whether dtype t keeps every value of the dtypes, as far as one does."""
    if t.kind == "f":
        if any(d.kind == "f" and d.itemsize > t.itemsize for d in dts):
            return False
        bits = {4: 24, 8: 53, 16: 64}[t.itemsize]
        w = max([d.itemsize * 8 - (d.kind == "i") for d in dts if d.kind in "iu"], default=0)
        return w <= bits or t.itemsize >= 8
    if any(d.kind == "f" for d in dts):
        return False
    if t.kind == "b":
        return all(d.kind == "b" for d in dts)
    ti = np.iinfo(t)
    return all(d.kind == "b" or (np.iinfo(d).min >= ti.min and np.iinfo(d).max <= ti.max) for d in dts)


def many(c):
    """HStack, HomogenizeArrays and GetUpcastNum over arrays of different dtypes."""
    op = c.pick(["hstack", "hstack", "homogenize", "upcast"])
    k = int(c.pick([1, 2, 2, 3, 5]))
    dts = [c.pick(DTS) for _ in range(k)]
    if c.coin(0.1):
        dts = [c.pick([np.dtype(v) for v in "qlLQ"]) for _ in range(k)]
    n = gen.length(c, big=0.1, huge=0.005)
    want = int(c.pick([-1, -1, c.pick(DTS).num]))
    arg = () if want == -1 and c.coin() and op == "hstack" else (want,)
    up = rc.GetUpcastNum([np.zeros(1, d) for d in dts])
    ut = {d.num: d for d in DTS}[up]
    c.check(holds(ut, dts), "upcast", lambda: f"{[d.char for d in dts]} -> {ut.char}")
    if op == "upcast":
        c.sig("upcast", "".join(sorted(d.char for d in dts)))
        return
    t = ut if want == -1 else {d.num: d for d in DTS}[want]
    xs = [limits(c, d, t, n if op == "homogenize" else gen.length(c, big=0.1, huge=0)) for d in dts]
    tm = gen.threads(c, rc)
    ls = [swap(c, x, 0.02) for x in xs]
    c.sig(op, "".join(d.char for d in dts[:2]), t.char, k, cls(n), ls[0][1], tm)
    det = lambda: f"{op} {[d.char for d in dts]} -> {t} lengths {[len(x) for x in xs]} {[v for _, v in ls]} {tm}"
    if op == "hstack":
        got = rc.HStack([v for v, _ in ls], *arg)
        c.check(len(got) == sum(map(len, xs)), "hstack:length", det)
        p = 0
        for x in xs:
            judge(c, "hstack", got[p:p + len(x)], x, t, True, det)
            p += len(x)
    else:
        got = rc.HomogenizeArrays([v for v, _ in ls], want)
        c.check(len(got) == k, "homogenize:length", det)
        for g, x in zip(got, xs):
            judge(c, "homogenize", g, x, t, True, det)


def strings(c):
    """HStack of strings of different widths, RemoveTrailingSpaces, and arrays the conversions must refuse."""
    k = c.pick(["S", "U"])
    n = gen.length(c, big=0.08, huge=0)
    what = c.pick(["hstack", "trail", "trail", "refuse"])
    tm = gen.threads(c, rc)
    if what == "hstack":
        xs = [gen.strings(c, k, gen.length(c, big=0.08, huge=0)) for _ in range(int(c.pick([1, 2, 3, 6])))]
        ls = [gen.layout(c, x, ("c", "off", "step", "neg")) for x in xs]
        c.sig("strings", what, k, len(xs), ls[0][1], cls(len(xs[0])), tm)
        det = lambda: f"hstack {[x.dtype.str for x in xs]} lengths {[len(x) for x in xs]} {[v for _, v in ls]} {tm}"
        got = rc.HStack([v for v, _ in ls])
        want = np.concatenate(xs)
        c.check(got.dtype == want.dtype and got.tobytes() == want.tobytes(), "hstack:strings", det)
        c.seen("strings", len(want))
    elif what == "trail":
        x = gen.strings(c, k, n)
        if n and c.coin():
            x = np.char.add(x, c.pick([" ", "   ", " x ", "\t "]).encode() if k == "S" else c.pick([" ", "   ", " x ", "\t "]))
        a, lay = gen.layout(c, x, ("c", "c", "off", "step", "neg", "ro"))
        if c.coin(0.1) and n:
            a, lay = np.asfortranarray(np.stack([x, x])), "F2"
            x = np.stack([x, x])
        elif k == "U" and c.coin(0.05):
            a, lay = x.astype(x.dtype.newbyteorder(">")), "swapped"
        c.sig("strings", what, k, lay, cls(n), x.dtype.itemsize)
        det = lambda: f"trailing {x.dtype.str} n={n} {lay}"
        base = a if a.base is None else a.base
        keep = base.copy()
        try:
            got = rc.RemoveTrailingSpaces(a)
        except ValueError:
            c.check(lay in ("step", "neg", "ro", "swapped", "off", "F2"), "trail:refused", det)
            c.check(base.tobytes() == keep.tobytes(), "trail:refused-but-wrote", det)
            return
        want = np.char.rstrip(x, " \0".encode() if k == "S" else " \0")
        c.check(np.array_equal(got, want), "trail:value", det)
        c.check(lay != "ro", "trail:readonly", det)
        if lay == "step":
            i = np.ones(len(base), bool)
            i[::base.strides[0] and a.strides[0] // base.strides[0]] = False
            c.check(base[i].tobytes() == keep[i].tobytes(), "trail:outside", det)
        c.seen("strings", n)
    else:
        k2 = c.pick(["S3", "U2", "O", "M8[s]", "m8[ns]", "F", "D", "e", "V4"])
        x = np.zeros(n % 300, k2)
        y = np.zeros(n % 300, c.pick(DTS))
        c.sig("refuse", k2)
        det = f"{k2} with {y.dtype} n={n % 300}"
        for name, f in (("ConvertSafe", lambda: rc.ConvertSafe(x, y.dtype.num)), ("ConvertUnsafe", lambda: rc.ConvertUnsafe(x, y.dtype.num)),
                        ("ConvertSafe", lambda: rc.ConvertSafe(y, x.dtype.num)), ("ConvertUnsafe", lambda: rc.ConvertUnsafe(y, x.dtype.num)),
                        ("ConvertSafe", lambda: rc.ConvertSafe(y, int(c.pick([-1, -5, 100, 2**31 - 1])))),
                        ("HStack", lambda: rc.HStack([x, y])), ("HomogenizeArrays", lambda: rc.HomogenizeArrays([x, y], -1)),
                        ("HStack", lambda: rc.HStack([y, x], y.dtype.num)), ("HomogenizeArrays", lambda: rc.HomogenizeArrays([y, x], y.dtype.num))):
            try:
                r = f()
            except (ValueError, TypeError):
                c.check(True, "", "")
                continue
            c.fail(f"refuse:{name}", f"{det}: returned {str(r)[:100]}")


FAMILIES = [("convert", 10, convert), ("putmask", 2, putmask), ("many", 4, many), ("strings", 2, strings)]
