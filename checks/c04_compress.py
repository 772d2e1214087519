import struct

import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C04"
FLAVOURS = {"quick": {"rel": 24000, "asan": 6000}, "thorough": {"rel": 160000, "asan": 40000}}
RULE = ("One case compresses a byte string or a list of arrays (any supported dtype, layout, length, content, level, checksum on or off), decompresses "
        "it and compares the bytes; or damages the compressed form (cut, flipped, extended, header fields rewritten) and watches that decompression "
        "raises, or gives back the original, and touches no other memory. A signature is (operation, dtypes, length class, level, damage, outcome).")
ASSUMPTIONS = ["arrays are compressed with their dtype number and length only: byte order and layout are normalised, structured dtypes come back as void",
               "a damaged array header may name another valid dtype or shape of the same number of bytes: then the bytes are those of the original"]

HEAD = 64  # sizeof(NUMPY_HEADERSIZE), see offsets()


def blob(c, n):
    r = c.rng
    k = c.pick(["random", "zeros", "run", "text", "repeat", "low"])
    if k == "random":
        return r.integers(0, 256, n, dtype=np.uint8).tobytes(), k
    if k == "zeros":
        return bytes(n), k
    if k == "run":
        return bytes([int(r.integers(0, 256))]) * n, k
    if k == "text":
        return (b"the quick brown fox jumps over %d lazy dogs;" % int(r.integers(0, 99)) * (n // 40 + 1))[:n], k
    if k == "repeat":
        p = r.integers(0, 256, int(r.integers(1, 90)), dtype=np.uint8).tobytes()
        return (p * (n // len(p) + 1))[:n], k
    return r.integers(0, 4, n, dtype=np.uint8).tobytes(), k


def level_of(c):
    return int(c.pick([1, 1, 2, 3, 3, 4, 5, 9, 12, 0, -1, -7, -2**31, 16, 19, 22, 23, 100, 2**31 - 1]))


def size_of(c):
    n = gen.length(c, 0, big=0.1, huge=0.02)
    return n


def cls(n):
    return "0" if n == 0 else "1" if n == 1 else "<300" if n < 300 else "<20k" if n < 20000 else "big"


def checksum(c):
    on = c.coin(0.7)
    rc.SetZstdChecksumming(on)
    return on


def text(c):
    on = checksum(c)
    n = size_of(c)
    lv = level_of(c) if n < 20000 else int(c.pick([1, 3, 5]))
    b, k = blob(c, n)
    src = b
    c.sig("text", k, cls(n), lv, on)
    c.sample(f"CompressString of {n} bytes ({k}), level {lv}, checksum {on}")
    z = rc.CompressString(src, lv) if c.coin(0.9) else rc.CompressString(src)
    c.check(type(z) is bytes and z[:4] == b"\x28\xb5\x2f\xfd", "text:frame", lambda: f"compressing {n} bytes ({k}) gave {z[:12]!r}: no zstd frame")
    got = rc.DecompressString(z)
    c.check(got == b, "text:round", lambda: f"{n} bytes ({k}) at level {lv}, checksum {on}: came back as {len(got)} bytes")
    c.seen("text-bytes", n)
    if c.coin(0.2):
        c.check(rc.DecompressString(z) == b, "text:again", "decompressing twice differs")


DT = gen.NUM + gen.LONGS + [np.dtype("g"), np.dtype("F"), np.dtype("D")]


def arrays_of(c, rows):
    out, names = [], []
    for _ in range(int(c.pick([0, 1, 1, 1, 2, 3, 5, 9]))):
        k = c.pick(["num", "num", "num", "S", "U", "V", "zero"])
        if k == "num":
            dt = c.pick(DT)
            if dt.kind == "c" or dt.char == "g":
                a = c.rng.integers(-9, 9, rows).astype(dt)
            else:
                a = gen.values(c, dt, rows)
        elif k in "SU":
            w = int(c.pick([100, 127, 128, 255, 256, 5000, 32767, 32768, 40000])) if rows < 6 and c.coin(0.3) else None
            a = gen.strings(c, k, rows, width=w)
            if w:  # as wide as can be
                a = a.astype(f"{k}{w}")
                a[:1] = "w" * w
        elif k == "V":
            w = int(c.pick([1, 3, 8]))
            a = c.rng.integers(0, 256, rows * w, dtype=np.uint8).view("V%d" % w)
        else:
            a = np.zeros(rows, c.pick(DT))
        a, l = gen.layout(c, a, ("c", "c", "off", "step", "neg"))
        if a.dtype.itemsize > 1 and a.dtype.kind in "iuf" and a.dtype.char != "g" and c.coin(0.06):
            a, l = a.astype(a.dtype.newbyteorder(">")), "swapped"
        if rows == 0 and c.coin(0.1):  # "no array" counts as one without rows
            a, l = None, "none"
        out.append(a)
        names.append((l if a is None else a.dtype.char) + ("" if l == "c" else l))
    return out, names


def pack(c, arrs):
    lv = level_of(c) if sum(0 if a is None else a.nbytes for a in arrs) < 60000 else int(c.pick([1, 2, 3]))
    how = c.pick(["list", "tuple", "one"])
    x = arrs if how == "list" else tuple(arrs) if how == "tuple" or len(arrs) != 1 or arrs[0] is None else arrs[0]
    return rc.CompressDecompressArrays(x, 0, lv), lv


def arrays(c):
    tag = gen.threads(c, rc)
    on = checksum(c)
    rows = gen.length(c, 0, big=0.08, huge=0.005)
    arrs, names = arrays_of(c, rows)
    z, lv = pack(c, arrs)
    c.sig("arrays", len(names), names[:2], cls(rows), lv, on)
    c.sample(f"CompressDecompressArrays {names} {rows} rows, level {lv}, checksum {on}")
    c.check(len(z) == len(arrs), "arrays:count", lambda: f"{len(arrs)} arrays gave {len(z)}")
    if c.coin(0.3):  # the compressed arrays may be copied around and cut to size
        z = tuple(a if a is None else gen.layout(c, np.array(a), ("off", "mis", "step"))[0] for a in z)
    got = rc.CompressDecompressArrays(z if c.coin() else list(z), 1)
    for a, z1, g, nm in zip(arrs, z, got, names):
        if a is None:
            c.check(z1 is None and g is None, "arrays:none", lambda: f"None became {z1!r} and {g!r}")
            continue
        e = np.ascontiguousarray(a)
        e = e.astype(e.dtype.newbyteorder("="), copy=False)
        ok = g.dtype == e.dtype and g.shape == e.shape and g.tobytes() == e.tobytes()
        c.check(ok, "arrays:round", lambda: f"{nm} of {rows} rows at level {lv}, checksum {on} {tag}: came back as {g.dtype} {g.shape}")
        c.seen("array-bytes", e.nbytes)


HOSTILE = [0, 1, 2, 3, 4, 7, 127, 128, 255, -1, 2**31 - 1, 2**31, 2**32, 2**40, 2**62, 2**63 - 1, -2**63, 2**64 - 1]


def damaged_text(c):
    on = checksum(c)
    n = gen.length(c, 0, big=0.02, huge=0)
    b, k = blob(c, n)
    z = bytearray(rc.CompressString(b, int(c.pick([1, 3, 7, 10, 13, 19, 22])) if n < 3000 else 2))
    how = c.pick(["cut", "flip", "flip", "field", "extend", "twice", "garbage", "skippable"])
    if how == "cut":
        z = z[:int(c.rng.integers(0, len(z)))]
    elif how == "flip":
        for _ in range(int(c.pick([1, 1, 2, 8]))):
            i = int(c.rng.integers(0, len(z))) if c.coin() else int(c.rng.integers(0, min(len(z), 20)))
            z[i] ^= 1 << int(c.rng.integers(0, 8))
    elif how == "field":
        i = int(c.rng.integers(0, min(len(z), 14)))
        v = struct.pack("<Q", int(c.pick(HOSTILE)) & (2**64 - 1))[:int(c.pick([1, 2, 4, 8]))]
        z[i:i + len(v)] = v
    elif how == "extend":
        z += c.rng.integers(0, 256, int(c.rng.integers(1, 30)), dtype=np.uint8).tobytes()
    elif how == "twice":
        z = z + bytes(z)
    elif how == "garbage":
        z = bytearray(c.rng.integers(0, 256, int(c.rng.integers(0, 80)), dtype=np.uint8).tobytes())
        if c.coin():
            z[:4] = b"\x28\xb5\x2f\xfd"
    else:
        z = bytearray(struct.pack("<II", 0x184D2A50, int(c.pick([0, 5, 2**31])))) + z
    z = bytes(z)
    try:
        got = rc.DecompressString(z)
        res = "same" if got == b else "other"
    except (ValueError, MemoryError) as e:
        res = "error"
    c.sig("damaged-text", how, cls(n), on, res)
    c.sample(f"DecompressString of damaged data ({how}, {len(z)} bytes): {res}")
    c.seen("outcomes")
    if res == "other" and how != "garbage" and (on or how in ("cut", "extend")):
        # two frames are two strings: the first one's size is all the caller was told; a checksum protects the content
        c.check(False, "damaged-text:accepted", f"{how}: {n} bytes ({k}) with checksum {on} decompressed into {len(got)} other bytes")


def offsets():
    """Where the header fields lie, from a compressed array whose fields are known."""
    z = bytes(rc.CompressDecompressArrays([np.arange(77, dtype=np.int16)], 0)[0])
    at = z.index(b"\x28\xb5\x2f\xfd")
    return at


FIELDS = [("magic", 0, 1), ("type", 1, 1), ("dtype", 2, 1), ("ndim", 3, 1), ("itemsize", 4, 4), ("flags", 8, 4), ("dim0", 16, 8), ("dim1", 24, 8),
          ("dim2", 32, 8), ("size", 40, 8)]


def damaged_arrays(c):
    tag = gen.threads(c, rc)
    on = checksum(c)
    rows = gen.length(c, 0, big=0.02, huge=0)
    dt = c.pick(DT + [np.dtype("S3"), np.dtype("U2")])
    a = c.rng.integers(0, 100, rows).astype(dt) if dt.kind not in "SU" else gen.strings(c, dt.kind, rows, width=4)
    a = np.ascontiguousarray(a)
    good = np.array(rc.CompressDecompressArrays([a], 0, int(c.pick([1, 3, 8, 15, 19])) if a.nbytes < 3000 else 2)[0])
    at = offsets()
    z = bytearray(good.tobytes())
    how = c.pick(["cut", "flip", "field", "field", "field", "head", "frame", "extend", "garbage", "reshape"])
    fields = ""
    if how == "cut":
        z = z[:int(c.rng.integers(0, len(z)))]
    elif how == "flip":
        for _ in range(int(c.pick([1, 1, 2, 8]))):
            z[int(c.rng.integers(0, len(z)))] ^= 1 << int(c.rng.integers(0, 8))
    elif how == "field":
        for _ in range(int(c.pick([1, 1, 2, 3]))):
            name, o, w = FIELDS[int(c.rng.integers(0, len(FIELDS)))]
            v = int(c.pick(HOSTILE)) if c.coin(0.7) else int(c.rng.integers(0, 40))
            if c.coin(0.2):
                v = int.from_bytes(z[o:o + w], "little") + int(c.pick([-1, 1]))
            z[o:o + w] = (v & (2 ** (8 * w) - 1)).to_bytes(w, "little")
            fields += name + " "
    elif how == "reshape":  # the same number of bytes, another shape
        z[3] = int(c.pick([0, 2, 3]))
        z[24:40] = struct.pack("<qq", int(c.pick([1, 2, rows])), int(c.pick([1, 1, 3])))
    elif how == "head":
        z[int(c.rng.integers(0, at))] = int(c.rng.integers(0, 256))
    elif how == "frame":
        z[at + int(c.rng.integers(0, min(14, len(z) - at)))] = int(c.rng.integers(0, 256))
    elif how == "extend":
        z += c.rng.integers(0, 256, int(c.rng.integers(1, 30)), dtype=np.uint8).tobytes()
    else:
        z = bytearray(c.rng.integers(0, 256, int(c.rng.integers(0, 200)), dtype=np.uint8).tobytes())
        if len(z) > 4 and c.coin(0.7):
            z[0:2] = good[:2].tobytes()
    bad = np.frombuffer(bytes(z), np.uint8)
    many = [good] * int(c.pick([0, 0, 1, 3])) + [bad] + [good] * int(c.pick([0, 0, 2]))
    b = a.tobytes()
    try:
        got = rc.CompressDecompressArrays(many, 1)
        res = "ok"
    except (ValueError, MemoryError, TypeError):
        res = "error"
    c.seen("outcomes")
    if res == "ok":
        for m, g in zip(many, got):
            if m is good:
                c.check(g.dtype == a.dtype and g.tobytes() == b, "damaged-arrays:other", lambda: f"an intact array beside a damaged one ({how} {fields}) changed")
            else:
                raw = g.tobytes()
                res = "same" if raw == b else "other"
                if res == "other" and on and how not in ("garbage",):
                    c.check(False, "damaged-arrays:accepted", f"{how} {fields}: {a.dtype} x {rows} with a checksum decompressed into {g.dtype} {g.shape} of other bytes")
    c.sig("damaged-arrays", how, fields[:12], dt.char, cls(rows), on, res)
    c.sample(f"damaged {dt} x {rows} ({how} {fields}) {tag}: {res}")
    # the module still works
    c.check(rc.CompressDecompressArrays([good], 1)[0].tobytes() == b, "damaged-arrays:after", lambda: f"after a damaged array ({how} {fields}) an intact one is lost")


def wrong(c):
    r = c.rng
    n = int(r.integers(0, 40))
    a = np.arange(n).astype(c.pick(DT[:8]))
    obj = c.pick([[a, a[:n // 2]], [a.reshape(-1, 1)], [None], [None, None], [np.array(3)], ["x"], "abc", 5, None, {}, [np.array([None] * n)],
                  [np.zeros(n, "O,i4")], [np.array([1, 2], "M8[s]")], [np.zeros(n, "e")], (), [], [a.astype("f2")], [np.zeros((2, 3, 2))], a, [a, a], [a[::2]]])
    mode = int(c.pick([0, 0, 1, 1, 2, 3, 4, 5, -1, 99]))
    what = c.pick(["arrays", "arrays", "arrays", "compress", "decompress"])
    try:
        if what == "arrays":
            got = rc.CompressDecompressArrays(obj, mode, *([int(c.pick(HOSTILE))] if c.coin(0.3) else []))
            res = type(got).__name__
            if mode == 0:
                for x in got:
                    if x is not None:
                        rc.CompressDecompressArrays([x], 1)
        elif what == "compress":
            got = rc.CompressString(*c.pick([(), ("abc",), (b"abc", "x"), (bytearray(b"abc"),), (a,), (None,), (b"a", 2**40), (b"x\0y", 3)]))
            res = type(got).__name__
        else:
            got = rc.DecompressString(*c.pick([(), ("abc",), (b"",), (b"abc",), (bytearray(b"abc"),), (a,), (None,), (b"x", 3)]))
            res = type(got).__name__
    except (ValueError, TypeError, MemoryError, OverflowError, BufferError) as e:
        res = type(e).__name__
    c.seen("outcomes")
    c.sig("wrong", what, mode, str(type(obj)), res)
    c.check(res != "NoneType", "wrong:none", lambda: f"{what} of {str(obj)[:60]} mode {mode} returned None")


FAMILIES = [("text", 3, text), ("arrays", 5, arrays), ("damaged_text", 2, damaged_text), ("damaged_arrays", 4, damaged_arrays), ("wrong", 1, wrong)]
