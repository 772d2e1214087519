import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C15"
FLAVOURS = {"quick": {"rel": 9000, "asan": 1500}, "thorough": {"rel": 150000, "asan": 26000}}
RULE = ("One case draws keys (one column or several, of any dtype) and ascending times with ties and invalid times for two tables, aligns them in one "
        "direction with or without exact matches, and compares every row with a search in the times of the right rows of the same key. "
        "A signature is (operation, key dtypes, time dtype, direction, exact, sizes, layouts).")
ASSUMPTIONS = ["times ascend apart from invalid ones; float keys are neither NaN nor negative zero (keys are compared bit by bit)",
               "the pre-binned merge is called with valid times"]

KEYS = gen.NUM + gen.LONGS
TIMES = [np.dtype(c) for c in "iqlILQfd"]
LAYS = ("c", "c", "off", "mis", "step", "neg", "ro")


def cls(n):
    return "0" if n == 0 else "1" if n == 1 else "<300" if n < 300 else "<20k" if n < 20000 else "big"


def lay(c, a):
    if a.dtype.itemsize > 1 and a.dtype.char != "g" and a.dtype.kind in "iuf" and c.coin(0.06):
        return a.astype(a.dtype.newbyteorder(">")), "swapped"
    return gen.layout(c, a, LAYS)


def pool_of(c, m):
    """m key values of some dtype; a name."""
    k = c.pick(["num", "num", "num", "S", "U"])
    if k == "num":
        dt = c.pick(KEYS)
        v = gen.values(c, dt, m, invalids=False)
        if dt.kind == "f":
            v = v + dt.type(0)
        return v, dt.char
    s = gen.strings(c, k, m, pool=m)
    return s, k


def keys(c, n1, n2):
    """Key columns of both sides and the codes that tell equal keys."""
    cols = int(c.pick([1, 1, 1, 2, 3]))
    m = int(c.pick([1, 2, 3, 10, 50, 300, max(1, n1 // 2)]))
    left, right, names, code = [], [], [], np.zeros(n1 + n2, np.int64)
    for _ in range(cols):
        p, name = pool_of(c, m if cols == 1 else max(1, int(m ** 0.5)))
        i = c.rng.integers(0, len(p), n1 + n2)
        if c.coin(0.2):  # keys that come in runs
            i = np.repeat(i, 4)[:n1 + n2]
        v = p[i]
        left.append(v[:n1])
        right.append(v[n1:])
        names.append(name)
        code = code * (len(p) + 1) + (np.unique(v, return_inverse=True)[1] if n1 + n2 else 0)
    return left, right, names, code[:n1], code[n1:]


def times(c, dt, n, base):
    r = c.rng
    k = base[0]
    if k == "dense":
        t = r.integers(0, base[1], n)
    elif k == "wide":
        hi = 2**31 - 2 if dt.itemsize == 4 else 2**62
        t = r.integers(0, hi, n)
    elif k == "nano":
        t = r.integers(0, 5000, n) + (1_600_000_000_000_000_000 if dt.itemsize == 8 else 1_000_000)
    else:
        t = np.arange(n)
    if dt.kind != "u" and c.coin(0.3):
        t = t - (base[1] if k == "dense" else 40)
    t = np.sort(t)
    if dt.kind == "f" and k != "nano" and c.coin(0.5):
        return (t * 0.5).astype(dt)
    return t.astype(dt)


def reference(code1, t1, code2, t2, forward, exact):
    ok1, ok2 = ~gen.is_inv(t1), ~gen.is_inv(t2)
    out = np.full(len(t1), np.iinfo(np.int32).min, np.int64)
    rows2 = np.flatnonzero(ok2)
    o = rows2[np.argsort(code2[rows2], kind="stable")]
    c2 = code2[o]
    for g in np.unique(code1):
        i = np.flatnonzero((code1 == g) & ok1)
        a, b = np.searchsorted(c2, g, "left"), np.searchsorted(c2, g, "right")
        if a == b or not len(i):
            continue
        rows = o[a:b]
        if forward:
            p = np.searchsorted(t2[rows], t1[i], "left" if exact else "right")
            good = p < len(rows)
        else:
            p = np.searchsorted(t2[rows], t1[i], "right" if exact else "left") - 1
            good = p >= 0
        out[i[good]] = rows[p[good]]
    return out


def sizes(c):
    a = gen.length(c, 0, big=0.06, huge=0.0)
    k = c.rng.random()
    b = gen.length(c, 0, big=0.06, huge=0.0) if k < 0.5 else max(0, a + int(c.rng.integers(-3, 4)))
    return a, b


def align(c):
    tag = gen.threads(c, rc)
    n1, n2 = sizes(c)
    left, right, names, code1, code2 = keys(c, n1, n2)
    tt = c.pick(TIMES)
    base = (c.pick(["dense", "dense", "wide", "nano", "arange"]), int(c.pick([2, 10, 100, 3000])))
    t1, t2 = times(c, tt, n1, base), times(c, tt, n2, base)
    if c.coin(0.3):
        for t in (t1, t2):
            t[c.rng.random(len(t)) < c.pick([0.02, 0.3])] = gen.inv(tt)
    if n1 and n2 and c.coin(0.1):  # all on one side
        t2 = np.full(n2, t1[0] if c.coin(0.5) else t1[-1], tt)
    forward, exact = c.coin(0.5), c.coin(0.5)
    exp = reference(code1, t1, code2, t2, forward, exact)
    kl = [lay(c, x) for x in left]
    kr = [lay(c, x) for x in right]
    x1, l1 = lay(c, t1)
    x2, l2 = lay(c, t2)
    if tt.char in "lq" and c.coin(0.3):
        x2 = x2.astype("l" if x2.dtype.char == "q" else "q") if x2.dtype.isnative else x2
    c.sig("align", names, tt.char, forward, exact, cls(n1), cls(n2), l1, l2 == "c", kl[0][1])
    c.sample(f"align {names} {tt} {n1} x {n2} forward {forward} exact {exact}")
    ta = tuple(x for x, _ in kl)
    tb = tuple(x for x, _ in kr)
    got = rc.MultiKeyAlign32(ta if len(ta) == 1 else (list(ta),), tb if len(tb) == 1 else (list(tb),), x1, x2, forward, exact)
    gen.expect(c, "align", got, exp.astype(np.int32), lambda: f"keys {names}, times {tt}, {n1} x {n2} rows, forward {forward}, exact {exact}, "
               f"layouts {[l for _, l in kl + kr]} {l1} {l2} {tag}")


def prebinned(c):
    tag = gen.threads(c, rc)
    n1, n2 = sizes(c)
    kt = np.dtype(c.pick("bhiiqql"))
    u = int(c.pick([1, 2, 5, 50, 127, 128 if kt.char == "b" else 300]))
    k1, k2 = c.rng.integers(0, u, n1).astype(kt), c.rng.integers(0, u, n2).astype(kt)
    tt = np.dtype(c.pick("iqlfd"))
    base = (c.pick(["dense", "dense", "wide", "nano", "arange"]), int(c.pick([2, 10, 100, 3000])))
    t1, t2 = times(c, tt, n1, base), times(c, tt, n2, base)
    exp = reference(k1.astype(np.int64), t1, k2.astype(np.int64), t2, False, True)
    od = np.int64 if kt.itemsize == 8 else np.int32
    exp[exp < 0] = np.iinfo(od).min
    (a, l1), (b, l2), (x, l3), (y, l4) = (lay(c, z) for z in (k1, k2, t1, t2))
    c.sig("prebinned", kt.char, tt.char, u, cls(n1), cls(n2), l1, l2 == "c", l3 == "c")
    c.sample(f"prebinned {kt} {tt} {n1} x {n2} of {u}")
    got = rc.MergeBinnedAndSorted(a, b, x, y, u)
    gen.expect(c, "prebinned", got, exp.astype(od), lambda: f"keys {kt} of {u}, times {tt}, {n1} x {n2} rows, layouts {l1} {l2} {l3} {l4} {tag}")


def wrong(c):
    n = int(c.pick([1, 5, 64, 300]))
    k = c.rng.integers(0, 4, n).astype(c.pick("bhiq"))
    t = np.arange(n)
    what = c.pick(["len1", "len2", "dtype", "ttype", "keys", "range", "merge", "args"])
    c.sig("wrong", what, cls(n))
    A, M = rc.MultiKeyAlign32, rc.MergeBinnedAndSorted
    s = int(c.pick([0, n + 1, 5 * n]))
    bad = k.copy()
    bad[int(c.rng.integers(0, n))] = c.pick([-1, 4, 100])
    calls = {
        "len1": [lambda: A((k,), (k,), np.arange(s), t, False, True), lambda: M(k, k, np.arange(s), t, 4)],
        "len2": [lambda: A((k,), (k,), t, np.arange(s), False, True), lambda: M(k, k, t, np.arange(s), 4)],
        "dtype": [lambda: A((k,), (k,), t, t.astype("d"), False, True), lambda: M(k, k, t, t.astype("d"), 4), lambda: M(k, k, t.astype("i"), t, 4)],
        "ttype": [lambda: A((k,), (k,), t.astype("h"), t.astype("h"), True, True), lambda: M(k, k, t.astype("S4"), t.astype("S4"), 4),
                  lambda: A((k,), (k,), t.astype("S4"), t.astype("S4"), True, True), lambda: M(k, k, t.astype("B"), t.astype("B"), 4)],
        "keys": [lambda: A((k,), (k.astype("S9"),), t, t, True, True), lambda: M(k.astype("i"), k.astype("q"), t, t, 4), lambda: M(k.astype("f"), k.astype("f"), t, t, 4),
                 lambda: A(((k, k),), (k,), t, t, True, True), lambda: A(((k, k[:0]),), ((k, k),), t, t, True, True)],
        "range": [lambda: M(bad, k, t, t, 4), lambda: M(k, bad, t, t, 4), lambda: M(k, k, t, t, -1), lambda: M(k + 1, k, t, t, 0)],
        "merge": [lambda: M(k, k, t), lambda: M(k, k, 5, t, 3), lambda: M(k, k, t, t, "x")],
        "args": [lambda: A(), lambda: A((k,), (k,), t, t), lambda: A(k, k, t, t, True, True), lambda: A((k,), (k,), 1, 2, True, True), lambda: A((), (), t, t, True, True),
                 lambda: A((5,), (5,), t, t, True, True)],
    }[what]
    for f in calls:
        try:
            r = f()
        except Exception as e:
            c.check(not isinstance(e, SystemError), "systemerror", lambda: f"{what}: {e}")
            c.seen("refusals")
            continue
        c.fail("accepted:" + what, f"{what}: gave {str(r)[:60]}")


FAMILIES = [("align", 10, align), ("prebinned", 4, prebinned), ("wrong", 0.7, wrong)]
