import ctypes
import os
import re

import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C20"
DRIVER = "pool.cpp"
PRELOAD = "delay.c"
FLAVOURS = {"quick": {"rel": 5000, "tsan": 1000}, "thorough": {"rel": 60000, "tsan": 8000}}
SHARDS = {"rel": 3, "tsan": 3}
RULE = ("One case gives the real pool (the module's own, or a fresh CMathWorker with 0 to 31 workers) work of one kind (element chunks, indices, "
        "group-by bins, raw block kernel), or a burst of jobs, or an interrupted job, with delays injected in the callbacks and around the "
        "futex calls, and counts how often each element was given to a callback; or it runs a threaded function under several thread "
        "settings and compares the bytes. Under ThreadSanitizer the same cases run with plain-memory counters, so a missing happens-before is "
        "reported as a race. A signature is (family, kind, size class, workers, wake-up count, delays, set of cores that took part).")
ASSUMPTIONS = ["the pool is driven by one thread at a time (the interpreter lock), as in the product",
               "volatile fields of the pool count as acquire/release for the race detector (x86 ordering of single loads and stores)"]


class Rec(ctypes.Structure):
    _fields_ = [("start", ctypes.c_int64), ("len", ctypes.c_int64), ("core", ctypes.c_int32), ("late", ctypes.c_int32)]


class Res(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int64) for k in ("calls", "bad", "late", "inflight", "maxinflight", "notone", "over", "firstbad", "stale",
                                              "cores", "unread")]


REC = np.dtype([("start", "q"), ("len", "q"), ("core", "i"), ("late", "i")])
L = D = None
CHUNK = 16384
KINDS = ["chunk", "index", "group", "raw"]


def worker_init(spec):
    global L, D
    L = ctypes.CDLL(os.environ["VP_DRIVER"])
    D = ctypes.CDLL(os.environ["VP_PRELOAD"])
    L.vp_pool_cores.restype = L.vp_pool_burst.restype = L.vp_pool_segment.restype = ctypes.c_int64
    P, q, i, u = ctypes.c_void_p, ctypes.c_int64, ctypes.c_int, ctypes.c_uint32
    L.vp_pool_job.argtypes = [i, i, q, i, u, i, q, P, q, P, P, P]
    L.vp_pool_burst.argtypes = [i, i, q, i, u, i, P]
    L.vp_pool_segment.argtypes = [i, q, q, P, P, q]


def level(c, k=None):
    k = c.pick([0, 0, 1, 3]) if k is None else k
    ctypes.c_int.in_dll(D, "vp_delay_level").value = k
    return k


def pool(c):
    """The module's pool, or one with its own number of workers."""
    if c.coin(0.4):
        return -1
    return int(c.pick([0, 1, 2, 3, 7, 16, 31] if c.flavour == "rel" else [1, 2, 5]))


def amount(c, kind):
    if kind in (0, 3):
        k = int(c.pick([0, 1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 31, 40] if c.flavour == "rel" else [1, 2, 2, 3, 4, 6]))
        return max(0, k * CHUNK + int(c.pick([0, 1, -1, 2, int(c.rng.integers(-CHUNK, CHUNK)), 8191, 5])))
    return int(c.pick([0, 1, 2, 3, 5, 7, 8, 15, 31, 32, 33, 64, 100, int(c.rng.integers(0, 300)), int(c.rng.integers(0, 3000))]))


def job(c, th, kind, n, wake, delay, stop=-1):
    counts = np.zeros(n + 1, np.uint8)
    inp = np.zeros(n + 1, np.uint8)
    recs = np.zeros(max(64, n if kind in (1, 2) else n // CHUNK + 8), REC)
    r = Res()
    L.vp_pool_job(th, kind, n, wake, int(c.rng.integers(0, 2 ** 31)), delay, stop, recs.ctypes.data, len(recs), counts.ctypes.data,
                  inp.ctypes.data, ctypes.byref(r))
    return r, recs[:min(r.calls, len(recs))], counts[:n]


def judge(c, th, kind, n, r, recs, counts, d, stopped=False):
    """Exactly once, in bounds, by a known core, over before the call returned."""
    c.seen("callbacks", r.calls)
    c.seen("elements", n)
    c.seen("concurrent>1", int(r.maxinflight > 1))
    c.check(not r.inflight, "pool:unfinished", lambda: f"{r.inflight} callbacks still running when the call returned; {d()}")
    c.check(not r.late, "pool:late", lambda: f"{r.late} callbacks after the call returned; {d()}")
    c.check(not r.bad, "pool:range", lambda: f"{r.bad} callbacks outside the work, e.g. {[tuple(x) for x in recs if x['start'] < 0 or x['start'] + x['len'] > n][:3]}; {d()}")
    c.check(not r.over, "pool:twice", lambda: f"{r.over} of {n} elements more than once, first wrong {r.firstbad}; {d()}")
    c.check(not r.stale, "pool:stale-input", lambda: f"{r.stale} elements of the input not visible to the workers; {d()}")
    cores = L.vp_pool_cores(th)
    if kind != 2:
        c.check(not len(recs) or (0 <= recs["core"].min() and recs["core"].max() < cores), "pool:core",
                lambda: f"core numbers {sorted(set(recs['core'].tolist()))} with {cores} cores; {d()}")
    if stopped:
        c.seen("interrupted-elements-skipped", r.notone)
        return
    c.check(not r.notone, "pool:missed", lambda: f"{r.notone} of {n} elements not given to a callback, first {r.firstbad}; {d()}")
    if kind in (1, 2):
        c.check(r.calls == n, "pool:calls", lambda: f"{r.calls} callbacks for {n} items; {d()}")
    c.seen("distinct-core-sets:" + bin(r.cores).count("1").__str__())


def once(c):
    th, kind = pool(c), int(c.rng.integers(0, 4))
    n, wake = amount(c, kind), int(c.pick([0, 0, 1, 2, 3, 5, 11, 31, 100]))
    lv, delay = level(c), int(c.pick([0, 1, 2, 4]))
    if n * (kind in (1, 2)) > 400:
        delay = min(delay, 1)
    fw = None
    if c.coin(0.4):
        fw = int(c.pick([1, 2, 4, 31]))
        L.vp_pool_wake(th, fw)
    nt = c.coin(0.06)
    L.vp_pool_nothreading(th, int(nt))
    r, recs, counts = job(c, th, kind, n, wake, delay)
    L.vp_pool_nothreading(th, 0)
    L.vp_pool_wake(th, 11)
    d = lambda: f"{KINDS[kind]} n={n} workers={th} wake={wake}/{fw} delays={lv}/{delay} threading={not nt}"  # noqa: E731
    c.sample(d() + f": {r.calls} callbacks on cores {r.cores:b}")
    c.sig(KINDS[kind], min(n // CHUNK, 9) if kind in (0, 3) else min(n, 40) // 4, th, min(wake, 12), fw, lv, delay, bin(r.cores).count("1"))
    judge(c, th, kind, n, r, recs, counts, d)
    if nt:
        c.check(not len(recs) or set(recs["core"].tolist()) == {0}, "pool:nothreading", lambda: "a worker took part; " + d())


def burst(c):
    th, kind = pool(c), int(c.rng.integers(0, 4))
    n = int(c.pick([1, 2, 3, 8, 20])) + 7 if kind in (1, 2) else 2 * CHUNK + 7 + int(c.rng.integers(0, 3 * CHUNK))
    jobs = int(c.pick([20, 60, 300, 1100] if kind in (1, 2) and c.flavour == "rel" else [20, 60] if c.flavour == "rel" else [10, 25]))
    lv, delay = level(c, c.pick([0, 1, 2]) if jobs < 1000 else c.pick([0, 1])), int(c.pick([0, 0, 1]))
    r = Res()
    bad = L.vp_pool_burst(th, kind, n, jobs, int(c.rng.integers(0, 2 ** 30)), delay, ctypes.byref(r))
    d = lambda: f"{KINDS[kind]} n={n} workers={th} {jobs} jobs delays={lv}/{delay}"  # noqa: E731
    c.sig(KINDS[kind], th, jobs, lv, delay)
    c.seen("burst-jobs", jobs)
    c.check(bad < 0, "pool:burst", lambda: f"job {bad}: inflight {r.inflight} late {r.late} outside {r.bad} wrong {r.notone} (more than once {r.over}) "
            f"stale {r.stale}; {d()}")


def interrupt(c):
    """An interrupted job stops early; it must still be over when the call returns, and the next job must be whole."""
    th, kind = pool(c), int(c.rng.integers(0, 4))
    n = amount(c, kind)
    if kind in (0, 3):
        n = max(n, 2 * CHUNK)
    lv, delay = level(c), int(c.pick([0, 1, 2]))
    stop = int(c.pick([0, 0, 1, 2, 5]))
    r, recs, counts = job(c, th, kind, n, 0, delay, stop)
    d = lambda: f"{KINDS[kind]} n={n} workers={th} interrupted after {stop} delays={lv}/{delay}"  # noqa: E731
    c.sig(KINDS[kind], min(n // CHUNK, 9), th, lv, delay, stop)
    judge(c, th, kind, n, r, recs, counts, d, stopped=True)
    for k in range(int(c.rng.integers(1, 4))):
        kind2 = int(c.rng.integers(0, 4))
        n2 = amount(c, kind2)
        r, recs, counts = job(c, th, kind2, n2, 0, delay)
        judge(c, th, kind2, n2, r, recs, counts, lambda: f"{KINDS[kind2]} n={n2}, {k + 1} after {d()}")


def segment(c):
    level(c, 0)
    for _ in range(20):
        th = int(c.pick([-1, 3, 7]))
        fw = int(c.pick([1, 2, 3, 8, 11, 31]))
        L.vp_pool_wake(th, fw)
        bins, mx = int(c.pick([0, 1, 2, 3, 10, 11, 12, 30, 31, 32, 100, int(c.rng.integers(0, 10 ** 6)), 2 ** 40 + 3])), int(c.pick([0, 0, 1, 2, 5, 40]))
        lo, hi = np.zeros(64, np.int64), np.zeros(64, np.int64)
        k = L.vp_pool_segment(th, bins, mx, lo.ctypes.data, hi.ctypes.data, 64)
        L.vp_pool_wake(th, 11)
        d = lambda: f"{bins} bins, limit {mx}, wake {fw}: {k} parts {list(zip(lo[:k].tolist(), hi[:k].tolist()))[:5]}"  # noqa: E731
        c.sig(min(bins, 40), mx, fw)
        c.check(k == min(bins, fw, mx or 99), "segment:parts", d)
        if k:
            c.check(lo[0] == 0 and hi[k - 1] == bins and (lo[1:k] == hi[:k - 1]).all() and (hi[:k] > lo[:k]).all(), "segment:cover", d)
            c.check((hi[:k] - lo[:k]).max() - (hi[:k] - lo[:k]).min() <= 1, "segment:balance", d)


def _ints(c, n, hi=1000):
    return c.rng.integers(0, hi, n).astype(c.pick(["i4", "i8", "i2", "f8", "f4"]))


def functions(c):
    """Whole functions: the same bytes in every threading mode and for every wake-up count."""
    n = int(c.pick([32768, 40000, 65537, 100003, 200001] if c.flavour == "rel" else [32768, 40000, 66000]))
    a, b = _ints(c, n), _ints(c, n)
    u = int(c.pick([3, 100, 5000]))
    key = c.rng.integers(0, u, n).astype(c.pick(["i4", "i8"]))
    idx = c.rng.integers(0, n, n).astype(c.pick(["i4", "i8"]))
    mask = c.rng.random(n) < 0.4
    x = c.rng.integers(0, u + 1, n).astype(c.pick(["i4", "i2"]))
    s = c.rng.integers(0, 500, n).astype(str).astype("U6" if c.coin(0.2) else "S5")
    if c.flavour == "tsan":
        s = s[:34000]
    cuts = np.sort(c.rng.random(40) * 1000)
    f4, f8 = a.astype("f4"), b.astype("f8")
    op = int(c.pick([1, 2, 3, 101, 10, 12, 403, 401]))
    one = int(c.pick([201, 202, 301, 213, 204]))
    gf = int(c.pick([0, 1, 2, 3, 50, 51, 52, 53]))
    perm = c.rng.permutation(n).astype("i4")

    def inplace(fn, v, *rest):
        v = v.copy()
        fn(v, *rest)
        return v

    tests = {
        "two": lambda: rc.BasicMathTwoInputs((a, b), op, 0),
        "one": lambda: rc.BasicMathOneInput((a,), one, 0),
        "reduce": lambda: [rc.Reduce(a.astype("i8"), k) for k in (0, 7, 11)],
        "mget": lambda: rc.MBGet(a, idx),
        "ismember": lambda: rc.IsMember32(a, b[:5000].astype(a.dtype)),
        "ismember2": lambda: rc.MultiKeyIsMember32((key, x), (key[:9000], x[:9000]), 0),
        "lexsort": lambda: rc.LexSort32([a]),
        "sort": lambda: rc.Sort(a, 0),
        "sortinplace": lambda: inplace(rc.SortInPlace, a, 2),
        "groupby": lambda: rc.MultiKeyGroupBy32([key], 0, None, 2),
        "groupbys": lambda: rc.MultiKeyGroupBy32([s], 0, None, 2),
        "groupby2": lambda: rc.MultiKeyGroupBy32([key, x], 0, mask, 2),
        "unique": lambda: rc.MultiKeyUnique32([key], 0),
        "hash": lambda: rc.MultiKeyHash([key], 0),
        "gall": lambda: rc.GroupByAll32([a.astype("i4"), b.astype("i8")], x, u, [gf, 0], [0, 0], [u + 1, u + 1], None),
        "pack": lambda: (lambda cn: (cn, rc.GroupFromBinCount(x, cn), rc.BinCount(x, u + 1, pack=True)))(rc.BinCount(x, u + 1)),
        "makeinext": lambda: rc.MakeiNext(x, u + 1, 0),
        "bool2fancy": lambda: (rc.BooleanToFancy(mask), rc.BooleanToFancy(mask, both=True)),
        "bools": lambda: rc.BooleanSum(mask),
        "boolindex": lambda: rc.BooleanIndex(a, mask),
        "setitem": lambda: inplace(rc.SetItem, a, mask, a[:1]),
        "putmask": lambda: inplace(rc.PutMask, a, mask, a[::-1].copy()),
        "where": lambda: rc.Where(mask, (a, b.astype(a.dtype)), a.dtype.num, a.dtype.itemsize),
        "cuts": lambda: (rc.BinsToCutsBSearch(f8, cuts, 0), rc.BinsToCutsBSearch(f4, cuts, 1)),
        "hstack": lambda: rc.HStack([a, b, f4]),
        "convert": lambda: (rc.ConvertUnsafe(a, np.dtype("f8").num), rc.ConvertSafe(f8, np.dtype("i4").num)),
        "trail": lambda: rc.RemoveTrailingSpaces(s),
        "shift": lambda: inplace(lambda v: rc.ShiftArrays([v], 7), a),
        "indirect": lambda: inplace(rc.SortInPlaceIndirect, idx, perm.astype(idx.dtype)),
        "filter": lambda: rc.CombineFilter(x.astype("i4"), mask),
        "ema": lambda: rc.EmaAll32([f8, f8 + 1], key.astype("i4"), u, 300, (0.0, None, None, None)),
        "rolling": lambda: rc.Rolling(f8, 0, 5),
        "dates": lambda: rc.DateStringToNanos(np.array([b"2020-01-05", b"1999-12-31", b"bad", b""] * (n // 4))),
        "compress": lambda: rc.CompressDecompressArrays([rc.CompressDecompressArrays([a], 0)[0]], 1),
        "groupfromlex": lambda: rc.GroupFromLexSort(np.argsort(a, kind="stable").astype("i4"), a),
    }
    name = c.pick(sorted(tests))
    f = tests[name]
    lv = level(c)
    outs = []
    c.sig(name, n, a.dtype.char, lv)

    def flat(x):
        if isinstance(x, (tuple, list)):
            return [z for y in x for z in flat(y)]
        if isinstance(x, dict):
            return [z for k in sorted(x) for z in flat(x[k])]
        return [x]

    for mode in ("off", 1, 31, 11, 5):
        if mode == "off":
            rc.ThreadingMode(1)
        else:
            rc.ThreadingMode(0)
            rc.SetThreadWakeUp(mode)
        try:
            r = f()
        except (ValueError, TypeError, KeyError) as e:
            r = repr(e)
        finally:
            rc.ThreadingMode(0)
            rc.SetThreadWakeUp(11)
        outs.append((mode, flat(r)))
    c.seen("function:" + name + (":raised" if isinstance(outs[0][1][0], str) and "Error" in outs[0][1][0] else ":none" if outs[0][1][0] is None else ""))
    for mode, o in outs[1:]:
        c.check(len(o) == len(outs[0][1]), "functions:shape", lambda: f"{name} n={n} wake {mode}")
        for x, y in zip(outs[0][1], o):
            same = (x.dtype == y.dtype and x.tobytes() == y.tobytes()) if isinstance(x, np.ndarray) else x == y or (x != x and y != y)
            c.check(same, f"functions:{name}", lambda: f"{name} n={n} {a.dtype}: wake {mode} gives other bytes than no threading: {str(x)[:150]} | {str(y)[:150]}")


def worker_done(c):
    c.seen("futex-waits", ctypes.c_long.in_dll(D, "vp_waits").value)
    c.seen("futex-wakes", ctypes.c_long.in_dll(D, "vp_wakes").value)


def post(run, j):
    """Every ThreadSanitizer report of this worker, identified by kind and the functions on both sides."""
    if j.flavour != "tsan":
        return
    for rep in j.san_text().split("==================")[1:]:
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+?) \(pid", rep)
        if not m:
            continue
        parts = re.split(r"\n\s*\n", rep)
        fs = []
        for p in parts[:2]:
            fr = re.findall(r"#\d+ (.+?) (/\S+?):\d+", p)
            mine = [x for x, w in fr if "/src/" in w or "/drivers/" in w]
            fs.append(re.sub(r"\(.*|<.*", "", mine[0]).split("::")[-1] if mine else "?")
        if all(f == "?" for f in fs):
            run.notes.append("race outside the module: " + rep[:300])
            continue
        run.viols.append(dict(idx=j.start, key="tsan:" + m.group(1).replace(" ", "-") + "@" + "|".join(sorted(fs)), msg=rep[:3000], flavour="tsan", pinned=None))


FAMILIES = [("once", 8, once), ("burst", 2, burst), ("interrupt", 3, interrupt), ("segment", 0.5, segment), ("functions", 3, functions)]
