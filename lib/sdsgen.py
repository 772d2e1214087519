"""Arrays, names and files for the SDS checks (C01-C03)."""
import os

import numpy as np

import gen

PLAIN = [np.dtype(k) for k in "?bBhHiIlLqQfd"]
WIDE = PLAIN + [np.dtype("F"), np.dtype("D"), np.dtype("g"), np.dtype("G")]


def data(c, dt, n):
    """n elements; every bit pattern for the numeric types, so that nothing depends on the values."""
    if dt.kind == "?" or dt.char == "?":
        return c.rng.random(n) < c.pick([0.0, 0.5, 1.0])
    if dt.kind in "SU":
        return gen.strings(c, dt.kind, n, dt.itemsize // (4 if dt.kind == "U" else 1)).astype(dt)
    if dt.char in "gG":
        return (c.rng.normal(0, 1, n) * 10.0 ** c.rng.integers(-300, 300, n)).astype(dt)
    how = c.pick(["bytes", "values", "zeros", "period"])
    if how == "bytes":
        return c.rng.integers(0, 256, n * dt.itemsize, dtype=np.uint8).view(dt)
    if how == "zeros":
        return np.zeros(n, dt)
    if how == "period":
        return np.resize(c.rng.integers(0, 256, 7 * dt.itemsize, dtype=np.uint8).view(dt), n)
    if dt.kind == "c":
        return (gen.values(c, np.dtype("d"), n) + 1j * gen.values(c, np.dtype("d"), n)).astype(dt)
    return gen.values(c, dt, n)


def dtype(c, kinds=WIDE):
    x = c.rng.random()
    if x < 0.12:
        return np.dtype(f"S{int(c.pick([1, 2, 3, 8, 17, 40]))}")
    if x < 0.24:
        return np.dtype(f"U{int(c.pick([1, 2, 3, 8, 17]))}")
    return c.pick(kinds)


def shape(c, n, nd):
    """A shape of nd dimensions with about n elements."""
    if nd == 1:
        return (n,)
    rest = [int(c.pick([1, 2, 3, 5, 0] if c.coin(0.1) else [1, 2, 3, 5])) for _ in range(nd - 1)]
    k = int(np.prod(rest))
    return (n // max(k, 1), *rest) if c.coin() else (*rest, n // max(k, 1))


def ident(a):
    """What must survive: dtype, shape and bytes in logical order."""
    return (gen.norm(a.dtype.newbyteorder("=")).str, a.shape)


def order_of(a):
    return "F" if a.flags.f_contiguous and not a.flags.c_contiguous else "C"


def equal(a, b):
    """Element bytes equal (values of long double: the padding bytes are open)."""
    if a.dtype.char in "gG":
        return bool(((a == b) | ((a != a) & (b != b))).all())
    a = np.ascontiguousarray(a).astype(a.dtype.newbyteorder("="), copy=False)
    b = np.ascontiguousarray(b)
    return a.tobytes() == b.tobytes()


def names(c, k):
    """k distinct item names as bytes."""
    out = []
    seen = set()
    for i in range(k):
        how = c.rng.random()
        if how < 0.7:
            s = f"col{i}".encode()
        elif how < 0.85:
            s = bytes(c.rng.integers(32, 127, int(c.rng.integers(1, 30)), dtype=np.uint8)).replace(b"/", b"|")
        elif how < 0.95:
            s = ("é世x" * int(c.rng.integers(1, 5)) + str(i)).encode()
        else:
            s = b"n" * int(c.pick([100, 255, 299, 300, 301, 700])) + str(i).encode()
        while s in seen:
            s += b"_"
        seen.add(s)
        out.append(s)
    return out


class Dir:
    """A scratch directory of one case, emptied afterwards."""

    def __init__(self, c):
        self.p = os.path.join(c.scratch, f"sds{os.getpid()}")

    def __enter__(self):
        os.makedirs(self.p, exist_ok=True)
        return self

    def f(self, name):
        return os.path.join(self.p, name)

    def __exit__(self, *a):
        for r, d, fs in os.walk(self.p, topdown=False):
            for x in fs:
                os.unlink(os.path.join(r, x))
            for x in d:
                os.rmdir(os.path.join(r, x))
        os.rmdir(self.p)
