import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C25"
FLAVOURS = {"quick": {"rel": 40000, "asan": 5000}, "thorough": {"rel": 400000, "asan": 50000}}
RULE = ("One case draws a buffer (dtype, content, length, alignment, layout) and compares CalculateCRC with a bitwise CRC-64/ECMA reference, "
        "or BitCount with numpy's own bit expansion. A signature is (function, dtype, byte length modulo 64 and class, alignment modulo 8 "
        "or layout).")
ASSUMPTIONS = ["the reference CRC is the bitwise definition (reflected polynomial 0xC96C5795D7870F42, inverted in and out), checked against "
               "the published check value of '123456789'"]

POLY = 0xC96C5795D7870F42
TAB = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ POLY if _c & 1 else _c >> 1
    TAB.append(_c)


def crc64(b, crc=0):
    crc = ~crc & (2 ** 64 - 1)
    t = TAB
    for x in b:
        crc = t[(crc ^ x) & 255] ^ (crc >> 8)
    return ~crc & (2 ** 64 - 1)


assert crc64(b"123456789") == 0x995DC9BBDF1939FA


def crc(c):
    n = int(c.pick([0, 1, 7, 8, 9, 63, 64, 65, 71, 72, 73, 127, 128, 129, int(c.rng.integers(0, 600)), int(c.rng.integers(0, 600)),
                    int(c.rng.integers(0, 4000))]))
    how = c.pick(["bytes", "typed", "zeros", "2d"])
    off = int(c.rng.integers(0, 16))
    buf = c.rng.integers(0, 256, n + off + 8, dtype=np.uint8)
    x = buf[off:off + n]
    if how == "zeros":
        x[:] = 0
        if n and c.coin():
            x[int(c.rng.integers(0, n))] = 1 << int(c.rng.integers(0, 8))
    elif how == "typed":
        dt = c.pick([np.dtype(k) for k in "hiqd"] + [np.dtype("S3"), np.dtype("U2"), np.dtype(">i4")])
        x = x[:n - n % dt.itemsize].view(dt)
    elif how == "2d":
        x = x[:n - n % 6].reshape(-1, 2, 3)
    if c.coin(0.1) and x.ndim == 1 and len(x) > 2:
        try:
            rc.CalculateCRC(x[::2])
            c.fail("crc:strided", "accepted a strided array")
        except ValueError:
            c.seen("refused-strided")
    b = x.tobytes()
    c.sig("crc", how, x.dtype.str, len(b) % 64, min(len(b) // 64, 4), off % 8)
    got = rc.CalculateCRC(x)
    e = crc64(b)
    c.seen("crc-bytes", len(b))
    c.check(got == (e - 2 ** 64 if e >= 2 ** 63 else e), "crc", lambda: f"got {got:#x}, expected {e:#x} for {len(b)} bytes {how} offset {off}")


def bits(c):
    dt = c.pick([gen.BOOL] + gen.INTS + gen.LONGS)
    n = gen.length(c, big=0.1, huge=0)
    x = gen.values(c, dt, n, c.pick(["full", "edge", "mix"]) if dt.kind != "b" else None)
    k = c.rng.random()
    if k < 0.7:
        xa, lay = gen.layout(c, x)
    elif k < 0.8 and n:
        d = int(c.pick([v for v in (1, 2, 3, 5) if n % v == 0]))
        x = x.reshape(d, -1)
        xa, lay = (np.asfortranarray(x), "F") if c.coin() else (x.copy(), "C2")
    elif k < 0.9:
        xa, lay = x.astype(dt.newbyteorder()), "swap"
    else:
        xa, lay = (x[:1].reshape(()), "0d") if n else (x, "c")
        x = xa.copy()
    c.sig("bits", dt.char, lay, "L" if n > 300 else n)
    keep = xa.tobytes()
    got = rc.BitCount(xa)
    flat = np.ascontiguousarray(x).reshape(-1)
    e = (flat != 0).astype(np.int8) if dt.kind == "b" else np.unpackbits(flat.view(np.uint8).reshape(len(flat), -1), axis=1).sum(
        axis=1).astype(np.int8) if len(flat) else np.zeros(0, np.int8)
    if lay == "0d":
        c.check(got.size == 1, "bits:0d", lay)
        got = got.reshape(())
    gen.expect(c, "bits", got, e.reshape(x.shape), f"{dt} n={n} {lay}")
    c.check(xa.tobytes() == keep, "bits:input-changed", lay)


def refuse(c):
    k = c.pick(["S3", "V5", "g", "V16"])
    c.sig("refuse", k)
    try:
        rc.BitCount(np.zeros(5, k))
        c.fail("refuse", k)
    except ValueError:
        c.seen("refused")


FAMILIES = [("crc", 1, crc), ("bits", 1, bits), ("refuse", 0.02, refuse)]
