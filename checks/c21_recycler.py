import gc
import tracemalloc
import weakref

import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C21"
FLAVOURS = {"quick": {"rel": 2600, "asan": 700}, "thorough": {"rel": 40000, "asan": 10000}}
RULE = ("One case is a history of 20 to 80 steps over arrays of a registered FastArray type: allocate through the module (Empty, AllocateNumpy, "
        "TryRecycleNumpy, arithmetic, sort, stack, filter, convert) or numpy, take views, look through weak references, change shape, dtype or "
        "write flag in place, delete, collect, and switch recycling. A monitor keeps the address range and bytes of every live array and after "
        "every step requires that a new array overlaps no live one it is not a view of, has the dtype and length asked for, and that the live "
        "ones still hold their bytes. A memory family repeats one history and bounds the traced memory. A signature is the set of steps used, "
        "the number of reused buffers, and the dtypes.")
ASSUMPTIONS = ["arrays are used from one thread (the interpreter lock)", "recycling starts on, as in a fresh interpreter",
               "an array brought back from the pool through a weak reference is not given another dtype or write flag"]


class FA(np.ndarray):
    pass


class Other(FA):
    pass


def worker_init(spec):
    rc.SetFastArrayType(np.zeros(1).view(FA), None)


DTS = [np.dtype(x) for x in "?bBhHiIlLqQfd"]
PLAIN = ["l", "d", "i", "f", "?", "h", "q"]


def span(a):
    return np.byte_bounds(a)


def roots(x, a):
    while x is not None and x is not a:
        x = getattr(x, "base", None)
    return x is a


class History:
    def __init__(self, c):
        self.c = c
        self.live = {}  # id -> [array, owner group, bytes]
        self.nid = 0
        self.log = []
        self.weak = []
        self.kept = []
        self.freed = set()
        self.reused = 0
        self.steps = set()
        self.lens = sorted({int(c.pick([1, 2, 3, 5, 8, 17, 64, 100, 130, 1000, 4097, 40000 if c.flavour == "rel" else 2000])) for _ in range(3)})
        self.dts = [np.dtype(c.pick(PLAIN)), np.dtype(c.pick(PLAIN)), DTS[int(c.rng.integers(0, len(DTS)))]]

    def det(self):
        return "history " + " ; ".join(self.log[-25:])

    def n(self):
        return self.lens[int(self.c.rng.integers(0, len(self.lens)))]

    def dt(self):
        return self.dts[int(self.c.rng.integers(0, 3))]

    def fill(self, a):
        b = self.c.rng.integers(0, 256, a.nbytes, dtype=np.uint8)
        if a.dtype == bool:
            b &= 1
        a[...] = b.view(a.dtype).reshape(a.shape)

    def add(self, a, group=None, fill=True):
        c = self.c
        if a.nbytes and group is None:
            lo, hi = span(a)
            for k, (x, g, _) in self.live.items():
                l, h = span(x)
                c.check(hi <= l or h <= lo, "overlap", lambda: f"a new {a.dtype} of {len(a)} at {lo:#x} shares memory with live {x.dtype} of {len(x)} at {l:#x}; {self.det()}")
        if fill and a.flags.writeable:
            self.fill(a)
        self.nid += 1
        self.live[self.nid] = [a, self.nid if group is None else group, np.asarray(a).tobytes()]
        c.seen("arrays")
        return self.nid

    def fresh(self, a, dt, n, what):
        """An array the module handed out as new."""
        c = self.c
        c.check(type(a) is FA, "type:" + what, lambda: f"{type(a)}; {self.det()}")
        c.check(a.dtype == dt and a.dtype.isnative, "dtype:" + what, lambda: f"asked {dt}, got {a.dtype.str}; {self.det()}")
        c.check(a.shape == (n,) and a.strides == (dt.itemsize,), "shape:" + what, lambda: f"asked {n}, got {a.shape} {a.strides}; {self.det()}")
        c.check(a.flags.writeable and a.flags.aligned, "flags:" + what, lambda: f"{a.flags}; {self.det()}")
        if what in ("empty", "like", "try"):
            c.check(a.base is None and a.flags.owndata, "owner:" + what, lambda: f"{a.flags}; {self.det()}")
            c.check(getattr(a, "_name", None) is None, "name:" + what, lambda: f"name {a._name!r} of the deleted array; {self.det()}")
        if a.ctypes.data in self.freed:
            self.reused += 1
        return self.add(a)

    def intact(self, k=None):
        for x, g, b in list(self.live.values()) if k is None else [self.live[i] for i in self.c.rng.permutation(sorted(self.live))[:k].tolist()]:
            self.c.check(np.asarray(x).tobytes() == b, "contents", lambda: f"{x.dtype} of {len(x)} changed while alive; {self.det()}")

    def drop(self, k):
        a, g, _ = self.live.pop(k)
        if a.base is None and type(a) is FA:
            self.freed.add(a.ctypes.data)

    def any(self, want=lambda a: True):
        ks = [k for k in sorted(self.live) if want(self.live[k][0])]
        return ks[int(self.c.rng.integers(0, len(ks)))] if ks else None

    def step(self, op):
        c, n, dt = self.c, self.n(), self.dt()
        self.log.append(f"{op} {dt.char}{n}")
        self.steps.add(op)
        if op == "empty":
            self.fresh(rc.Empty([n], dt.num, 0, c.coin(0.2)), dt, n, op)
        elif op == "like":
            src = np.zeros(n, c.pick(PLAIN))
            self.fresh(rc.AllocateNumpy(src.view(FA) if c.coin(0.5) else src, dt.num), dt, n, op)
        elif op == "try":
            r = rc.TryRecycleNumpy(dt.num, [np.zeros(k) for k in (self.n(), n)])
            if r is not None:
                c.check(len(r) in self.lens, "shape:try", lambda: f"{r.shape}; {self.det()}")
                self.fresh(r, dt, len(r), op)
        elif op in ("add", "mul"):
            x, y = (np.asarray(c.rng.integers(0, 60, n).astype(dt)) for _ in range(2))
            if c.coin(0.6):
                x, y = x.copy().view(FA), y.view(FA).copy()
            r = rc.BasicMathTwoInputs((x, y), 1 if op == "add" else 3, 0)
            if r is not None and dt.kind != "b":
                w = np.asarray(x) + np.asarray(y) if op == "add" else np.asarray(x) * np.asarray(y)
                c.check(np.array_equal(np.asarray(r), w), "result:" + op, lambda: f"{np.asarray(r)[:9]} for {w[:9]}; {self.det()}")
                if r.dtype == dt:
                    self.fresh(r, dt, n, "op")
                else:
                    self.add(r)
        elif op == "cmp":
            x, y = c.rng.integers(0, 60, n).astype(dt), c.rng.integers(0, 60, n).astype(dt)
            r = rc.BasicMathTwoInputs((x, y), 403, 0)
            if r is not None:
                self.add(r, fill=False)
        elif op == "sort":
            x = c.rng.integers(0, 60, n).astype(dt)
            r = rc.Sort(x.view(FA), 2)
            c.check(np.array_equal(np.asarray(r), np.sort(x)), "result:sort", self.det)
            self.fresh(r, dt, n, "op")
        elif op == "lexsort":
            x = c.rng.integers(0, 60, n).astype(dt)
            r = rc.LexSort32([x.view(FA)])
            c.check(np.array_equal(np.asarray(r), np.argsort(x, kind="stable")), "result:lexsort", self.det)
            self.fresh(r, np.dtype("i4"), n, "op")
        elif op == "hstack":
            k = self.any(lambda a: a.ndim == 1 and a.dtype == dt)
            x = np.asarray(self.live[k][0]) if k else np.ones(n, dt)
            r = rc.HStack([x, x])
            c.check(np.asarray(r).tobytes() == x.tobytes() * 2, "result:hstack", self.det)
            self.add(r, fill=False)
        elif op == "filter":
            k = self.any(lambda a: a.ndim == 1 and a.dtype.isnative and a.flags.contiguous)
            if k:
                x = self.live[k][0]
                m = c.rng.random(len(x)) < 0.5
                r = rc.BooleanIndex(x, m)
                c.check(np.asarray(r).tobytes() == np.asarray(x)[m].tobytes(), "result:filter", self.det)
                self.add(r, fill=False)
        elif op == "group":
            x = c.rng.integers(0, 5, n).astype("i4")
            r = rc.MultiKeyGroupBy32([x], 0, None, 2)
            for v in r:
                if isinstance(v, np.ndarray):
                    self.add(v, fill=False)
        elif op == "numpy":
            a = c.pick([lambda: np.zeros(n, dt).view(FA).copy(), lambda: np.zeros(n, dt).view(FA), lambda: FA(n, dt), lambda: FA((n, 2), dt),
                        lambda: FA((n, 3), dt, order="F"), lambda: FA(n, dt.newbyteorder(">")), lambda: Other(n, dt), lambda: FA(n, "S7"),
                        lambda: FA(n, np.dtype([("x", dt)])), lambda: FA(n, np.dtype(dt, metadata={"k": 1}))])()
            self.add(a)
        elif op == "name":
            k = self.any(lambda a: type(a) is FA)
            if k:
                self.live[k][0]._name = "col" + str(k)
        elif op == "view":
            k = self.any(lambda a: a.ndim == 1 and len(a) > 1)
            if k:
                a, g, _ = self.live[k]
                v = c.pick([lambda: a[1:], lambda: a[::2], lambda: a[::-1], lambda: a[:], lambda: a.view(FA), lambda: np.asarray(a), lambda: a.reshape(-1, 1),
                            lambda: a[len(a) // 2:].view(Other)])()
                self.add(v, g, fill=False)
        elif op == "write":
            k = self.any(lambda a: a.flags.writeable)
            if k:
                a, g, _ = self.live[k]
                self.fill(a)
                for x in self.live.values():
                    if x[1] == g:
                        x[2] = np.asarray(x[0]).tobytes()
        elif op == "mutate":
            k = self.any(lambda a: a.base is None and a.ndim == 1 and a.flags.writeable and a.dtype.kind in "iuf" and a.ctypes.data not in self.kept)
            if k:
                a = self.live[k][0]
                how = c.pick(["order", "shape", "readonly", "dtype"])
                self.log[-1] += " " + how
                if how == "order" and a.dtype.itemsize > 1:
                    a.dtype = a.dtype.newbyteorder()
                elif how == "shape":
                    a.shape = (len(a), 1)
                elif how == "readonly":
                    a.flags.writeable = False
                elif how == "dtype":
                    a.dtype = np.dtype({1: "?", 2: "H", 4: "f", 8: "d"}.get(a.dtype.itemsize, "u1")) if a.dtype.itemsize > 1 else a.dtype
        elif op == "weak":
            k = self.any(lambda a: type(a) is FA)
            if k:
                self.weak.append(weakref.ref(self.live[k][0]))
                if c.coin(0.6):
                    self.drop(k)
        elif op == "revive":
            if self.weak:
                a = self.weak.pop(int(c.rng.integers(0, len(self.weak))))()
                if a is not None:
                    c.seen("revived")
                    if not any(x[0] is a for x in self.live.values()):
                        c.seen("revived-from-pool")
                        self.kept.append(a.ctypes.data)
                        mine = [x[1] for x in self.live.values() if roots(x[0], a)]
                        self.add(a, fill=False, group=mine[0] if mine else None)
        elif op == "del":
            k = self.any()
            if k:
                self.log[-1] = f"del {self.live[k][0].dtype.str}{self.live[k][0].shape}"
                self.drop(k)
        elif op == "collect":
            rc.RecycleGarbageCollectNow(int(c.pick([0, 0, 10 ** 8, 1])))
        elif op == "pygc":
            gc.collect()
        elif op == "mode":
            rc.SetRecycleMode(int(c.pick([0, 0, 1])))
        elif op == "timeout":
            rc.RecycleSetGarbageCollectTimeout(int(c.pick([0, 1, 150, 150])))
        elif op == "recycle":
            k = self.any()
            if k:
                c.check(rc.RecycleNumpy(self.live[k][0]) is False, "recycled-live", lambda: f"a live array was put up for reuse; {self.det()}")


WEIGHTS = dict(empty=5, like=4, add=3, mul=1, cmp=1, sort=1, lexsort=1, hstack=1, filter=1, group=1, numpy=3, name=1, view=3, write=1, mutate=1.5, weak=1.2,
               revive=1.5, collect=0.6, pygc=0.2, mode=0.5, timeout=0.4, recycle=0.5)
WEIGHTS["try"] = 3
WEIGHTS["del"] = 10
OPS = sorted(WEIGHTS)
P = np.array([WEIGHTS[o] for o in OPS])
P = P / P.sum()


def reset():
    rc.SetRecycleMode(0)
    rc.RecycleSetGarbageCollectTimeout(150)
    rc.RecycleGarbageCollectNow(0)


def history(c):
    reset()
    gen.threads(c, rc)
    h = History(c)
    try:
        for _ in range(int(c.rng.integers(20, 80))):
            h.step(OPS[int(c.rng.choice(len(OPS), p=P))])
            h.intact(3)
            if len(h.live) > 30:
                h.step("del")
        h.intact()
        c.seen("steps", len(h.log))
        c.seen("buffers-reused", h.reused)
        c.sample(f"{len(h.log)} steps, {h.reused} reused; " + h.det()[:150])
        c.sig(sorted(h.steps), min(h.reused, 8), [d.char for d in h.dts], h.lens)
        rc.RecycleGarbageCollectNow(0)
        h.intact()
        rc.SetRecycleMode(1)
        for k in sorted(h.live):
            h.drop(k)
            h.intact(4)
    finally:
        reset()


def memory(c):
    """The pool is bounded, is emptied on request, and a repeated history does not grow."""
    reset()
    if c.flavour != "rel":
        return
    n, dt = int(c.pick([1000, 5000, 50000])), np.dtype(c.pick(PLAIN))
    kind = c.pick(["empty", "numpy", "two", "sort", "mixed", "collect", "off"])
    x = c.rng.integers(0, 50, n).astype(dt)

    def once(i):
        if kind == "empty":
            return rc.Empty([n], dt.num, 0, False)
        if kind == "numpy":
            return np.ones(n, dt).view(FA).copy()
        if kind == "two":
            return rc.BasicMathTwoInputs((x, x), 1, 0)
        if kind == "sort":
            return rc.Sort(x.view(FA), 0)
        if kind == "mixed":
            return [rc.Empty([n + j], np.dtype(t).num, 0, False) for j in range(12) for t in "id"]
        if kind == "collect":
            rc.RecycleGarbageCollectNow(10 ** 8)
            return rc.Empty([n], dt.num, 0, False)
        rc.SetRecycleMode(i & 1)
        return [rc.Empty([n], dt.num, 0, False) for _ in range(3)]

    tracemalloc.start()
    try:
        for i in range(4):
            once(i)
        reset()
        base = tracemalloc.get_traced_memory()[0]
        peak = 0
        reps = 120
        for i in range(reps):
            r = once(i)
            del r
            peak = max(peak, tracemalloc.get_traced_memory()[0] - base)
        reset()
        end = tracemalloc.get_traced_memory()[0] - base
    finally:
        tracemalloc.stop()
        reset()
    c.sig("memory", kind, n, dt.char)
    det = f"{kind} {dt.char}{n}: up to {peak} bytes while recycling, {end} after collecting, {reps} rounds"
    c.sample(det)
    one = (n + 12) * 8
    c.check(peak <= one * (24 + 16) + 60000, "memory:pool", lambda: det)
    c.check(end <= 4000, "memory:leak", lambda: det)


FAMILIES = [("history", 12, history), ("memory", 1, memory)]
