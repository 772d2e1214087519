import os

import numpy as np
import riptide_cpp as rc

import gen
import sdsgen as sg

PROPERTY = "C01"
FLAVOURS = {"quick": {"rel": 5000, "asan": 1000}, "thorough": {"rel": 60000, "asan": 12000}}
RULE = ("One case draws a list of arrays (0 to 40 of them; dtype, dimensions 1-5, memory order, layout, content, None), names, per-item flags, "
        "metadata bytes, compression type and level, band size, file type and threading mode, writes the file in a scratch directory and reads "
        "it back through DecompressFile, MultiDecompressFiles, MultiPossiblyStackFiles, with an item list, as header information only, or "
        "through shared memory; everything read must equal what was written. A signature is (reader, compression, band class, "
        "dtype, dimensions, order, layout, length class).")
ASSUMPTIONS = ["arrays of 1 to 5 dimensions (0-d arrays, which riptable wraps in one element, come back as None)",
               "dtypes bool, integers, float32 to long double, complex, S, U (half precision, dates and objects are refused; of a record only the bytes come back)",
               "names without NUL bytes or slashes (the one-file folder separator), flags 0 to 255", "byte-swapped arrays come back in native order with equal values"]


def arr(c, n):
    """(array, tag)"""
    dt = sg.dtype(c)
    nd = int(c.pick([1, 1, 1, 1, 2, 2, 3, 4, 5]))
    if nd == 1:
        a, k = gen.layout(c, sg.data(c, dt, n), ["c", "c", "c", "off", "mis", "step", "neg", "ro"])
    else:
        sh = sg.shape(c, n, nd)
        a = sg.data(c, dt, int(np.prod(sh))).reshape(sh)
        k = c.pick(["C", "C", "F", "T", "sub", "neg"])
        if k == "F":
            a = np.asfortranarray(a)
        elif k == "T":
            a = a.transpose(c.rng.permutation(nd))
        elif k == "sub":
            b = np.zeros(tuple(s + 1 for s in sh), dt)
            b = b[tuple(slice(0, s) for s in sh)]
            b[...] = a
            a = b
        elif k == "neg":
            a = a[::-1]
    if c.coin(0.03) and dt.kind in "iuf" and dt.itemsize > 1:
        a = a.astype(dt.newbyteorder(">"))
        k += ">"
    return a, f"{dt.char}{nd}{k}"


def compare(c, key, got, want, det):
    if want is None:
        c.check(got is None, key + ":none", lambda: f"got {type(got).__name__} for a None column; {det()}")
        return
    c.check(isinstance(got, np.ndarray), key + ":lost", lambda: f"got {got!r} for a column; {det()}")
    c.check(sg.ident(got) == sg.ident(want), key + ":type", lambda: f"{sg.ident(got)}, wrote {sg.ident(want)}; {det()}")
    c.check(sg.equal(want, got), key + ":value", lambda: f"differs: {gen.first_diff(got, want)}; {det()}")
    if (want.flags.c_contiguous or want.flags.f_contiguous) and want.size:
        c.check(sg.order_of(got) == sg.order_of(want), key + ":order", lambda: f"order {sg.order_of(got)}, wrote {sg.order_of(want)}; {det()}")
    c.seen("bytes", want.nbytes)
    c.seen("columns")


def items(c, key, got, names, flags, det):
    g = [(i.itemname, i.flags) for i in got]
    c.check(g == list(zip(names, flags)), key + ":items", lambda: f"items {g[:5]}, wrote {list(zip(names, flags))[:5]}; {det()}")


def draw(c):
    k = int(c.pick([0, 1, 1, 2, 3, 5, 8, 20, 40]))
    big = 0.25 if k <= 8 else 0.02
    arrs, tags = [], []
    same = gen.length(c, big=big) if c.coin(0.3) else None
    for _ in range(k):
        if c.coin(0.06):
            arrs.append(None)
            tags.append("None")
            continue
        a, t = arr(c, same if same is not None else gen.length(c, big=big, huge=0.01))
        arrs.append(a)
        tags.append(t)
    names = sg.names(c, k)
    flags = [int(x) for x in c.rng.integers(0, 256, k)]
    mlen = int(c.pick([0, 1, 3, 100, 511, 512, 513, 5000, 100000]))
    meta = (bytes(c.rng.integers(0, 256, mlen, dtype=np.uint8)) if c.coin() else (b'{"version": 3, "a": "b"}' * (mlen // 20 + 1))[:mlen])
    return arrs, tags, names, flags, meta


def setup(c):
    arrs, tags, names, flags, meta = draw(c)
    comp = int(c.pick([0, 1, 1, 1]))
    level = int(c.pick([-1, 0, 1, 2, 3, 5, 9, 12, 19, 22, 30] if sum(a.nbytes for a in arrs if a is not None) < 200000 else [0, 1, 2, 3]))
    kw = {}
    if c.coin(0.35):
        kw["bandsize"] = int(c.pick([10000, 10001, 16384, 30000, 100000, 1, 10 ** 9]))
    ft = int(c.pick([0, 1, 2, 3, 4, 6]))
    before = [None if a is None else a.copy() for a in arrs]
    t = gen.threads(c, rc)
    return arrs, tags, names, flags, meta, comp, level, kw, ft, before, t


def sigs(c, how, comp, kw, arrs, tags):
    for a, t in zip(arrs, tags):
        n = 0 if a is None else a.size
        c.sig(how, comp, "b" if "bandsize" in kw else "-", t, "L" if n > 10000 else "M" if n > 100 else n // 20)
    if not arrs:
        c.sig(how, comp, "empty")


def roundtrip(c):
    arrs, tags, names, flags, meta, comp, level, kw, ft, before, t = setup(c)
    with sg.Dir(c) as d:
        f = d.f("a.sds")
        det0 = lambda: f"comp {comp} level {level} {kw} {t} {len(arrs)} columns"  # noqa: E731
        for rep in range(2 if c.coin(0.2) else 1):  # writing again over the file replaces it
            if rep:
                arrs, tags, names, flags, meta = draw(c)
                before = [None if a is None else a.copy() for a in arrs]
            r = rc.CompressFile(f.encode(), meta, arrs, list(zip(names, flags)), comp, level, ft, **kw)
            c.check(r is None, "write", lambda: f"CompressFile returned {r!r}")
        for a, b, tg in zip(arrs, before, tags):
            c.check(a is None or a.tobytes() == b.tobytes(), "input", lambda: f"writing changed its input {tg}")
        del before
        gen.threads(c, rc)
        how = c.pick(["multi", "multi", "one", "possibly", "twice"])
        if how == "multi":
            res = rc.MultiDecompressFiles([f if c.coin() else f.encode()], 3)
            c.check(len(res) == 1, "count", lambda: f"{len(res)} results for one file")
        elif how == "twice":
            res = rc.MultiDecompressFiles([f, f.encode(), f], 3)
            c.check(len(res) == 3, "count", lambda: f"{len(res)} results for three files")
        elif how == "one":
            res = rc.DecompressFile(f.encode(), 3)
        else:
            res = rc.MultiPossiblyStackFiles([f])
        sigs(c, how, comp, kw, arrs, tags)
        for r in res:
            gmeta, cols, its, head = r
            det = lambda: f"{how} {det0()}"  # noqa: E731
            c.check(gmeta == meta, "meta", lambda: f"metadata {str(gmeta)[:50]} differs; {det()}")
            items(c, "rt", its, names, flags, det)
            c.check(len(cols) == len(arrs), "columns", lambda: f"{len(cols)} columns, wrote {len(arrs)}; {det()}")
            for i, (g, w) in enumerate(zip(cols, arrs)):
                compare(c, "rt", g, w, lambda: f"column {i} {tags[i]} {det()}")
            c.check(head["FileType"] == ft and head["ArraysWritten"] == len(arrs) and head["NameBlockCount"] == len(names), "header",
                    lambda: f"header {head}; {det()}")
            c.sample(f"{how} {len(arrs)} columns {tags[:3]} comp {comp} level {level} {kw}: all equal")


def include(c):
    arrs, tags, names, flags, meta, comp, level, kw, ft, _, t = setup(c)
    with sg.Dir(c) as d:
        f = d.f("a.sds")
        rc.CompressFile(f.encode(), meta, arrs, list(zip(names, flags)), comp, level, ft, **kw)
        want = [i for i in range(len(arrs)) if c.coin(c.pick([0.1, 0.5, 0.9]))]
        order = list(c.rng.permutation(want)) if want else []
        inc = [names[i] if c.coin() else names[i].decode() for i in order] + (["no such item"] if c.coin(0.2) else [])
        if not inc:
            return
        how = "multi"
        res = rc.MultiDecompressFiles([f], 3, include=inc)[0]
        gmeta, cols, its, head = res
        det = lambda: f"{how} include {len(want)} of {len(arrs)} comp {comp} {kw} {t}"  # noqa: E731
        sigs(c, "inc-" + how, comp, kw, [arrs[i] for i in want], [tags[i] for i in want])
        c.check(gmeta == meta, "meta", lambda: f"metadata differs; {det()}")
        items(c, "inc", its, names, flags, det)
        c.check(len(cols) == len(arrs), "columns", lambda: f"{len(cols)} columns, wrote {len(arrs)}; {det()}")
        for i, g in enumerate(cols):
            compare(c, "inc", g, arrs[i] if i in want else None, lambda: f"column {i} {tags[i]} {det()}")


def info(c):
    arrs, tags, names, flags, meta, comp, level, kw, ft, _, t = setup(c)
    with sg.Dir(c) as d:
        f = d.f("a.sds")
        rc.CompressFile(f.encode(), meta, arrs, list(zip(names, flags)), comp, level, ft, **kw)
        gmeta, cols, its, head = rc.MultiDecompressFiles([f], 5)[0] if c.coin() else rc.DecompressFile(f.encode(), 5)[0]
        det = lambda: f"info comp {comp} {kw} {t}"  # noqa: E731
        sigs(c, "info", comp, kw, arrs, tags)
        c.check(gmeta == meta, "meta", lambda: f"metadata differs; {det()}")
        items(c, "info", its, names, flags, det)
        c.check(len(cols) == len(arrs), "columns", lambda: f"{len(cols)} columns, wrote {len(arrs)}; {det()}")
        for i, (g, w) in enumerate(zip(cols, arrs)):
            if w is None:
                continue
            sh, num, it = g[0], g[1], g[3]
            c.check(tuple(sh) == w.shape and it == w.itemsize and num in (w.dtype.num, {7: 9, 8: 10, 9: 7, 10: 8}.get(w.dtype.num)), "info:array",
                    lambda: f"info {g} for {w.dtype} {w.shape}; {det()}")


def band(c):
    """Arrays, whole or in bands, that compress to just about their own size: the reader tells the cases apart."""
    n = int(c.pick([10001, 12000, 20000, 20001, 30000, 10000, 50, 100, 1000, 4000]))
    kw = {"bandsize": 10000} if c.coin() else {}
    a = c.rng.integers(0, 256, n, dtype=np.uint8)
    with sg.Dir(c) as d:
        f = d.f("a.sds")
        arrs = []
        base = int(c.rng.integers(0, 20))
        for z in range(base, base + 40):
            b = a.copy()
            o = c.pick([10, n // 2, n - z - 5]) if n > 90 else 3
            b[o:o + z] = 7
            arrs.append(b)
        names = [b"x%d" % i for i in range(len(arrs))]
        rc.CompressFile(f.encode(), b"", arrs, [(x, 0) for x in names], 1, int(c.pick([1, 3, 9])), 0, **kw)
        cols = rc.MultiDecompressFiles([f], 3)[0][1]
        c.sig("band", n, base, len(kw))
        c.seen("near-coincidences", 40)
        for i, (g, w) in enumerate(zip(cols, arrs)):
            compare(c, "band", g, w, lambda: f"array with run {base + i}, length {n} {kw}")


def share(c):
    arrs, tags, names, flags, meta, comp, level, kw, ft, _, t = setup(c)
    sh = f"vp{os.getpid()}".encode()
    with sg.Dir(c) as d:
        f = d.f("s.sds")
        try:
            rc.CompressFile(f.encode(), meta, arrs, list(zip(names, flags)), comp, level, ft, sh, **kw)
            c.check(not os.path.exists(f), "share:file", "a file was written besides the share")
            gmeta, cols, its, head = rc.DecompressFile(f.encode(), 3, sh)
            det = lambda: f"share {len(arrs)} columns {t}"  # noqa: E731
            sigs(c, "share", comp, kw, arrs, tags)
            c.check(gmeta == meta, "meta", lambda: f"metadata differs; {det()}")
            items(c, "share", its, names, flags, det)
            c.check(len(cols) == len(arrs), "columns", lambda: f"{len(cols)} columns, wrote {len(arrs)}; {det()}")
            for i, (g, w) in enumerate(zip(cols, arrs)):
                compare(c, "share", g, w, lambda: f"column {i} {tags[i]} {det()}")
        finally:
            for x in os.listdir("/dev/shm"):
                if x.startswith(f"Global_vp{os.getpid()}!"):
                    os.unlink("/dev/shm/" + x)


def refuse(c):
    """What cannot be stored is refused with an exception, and the next write works."""
    with sg.Dir(c) as d:
        f = d.f("r.sds")
        good = np.arange(5)
        bad, why = c.pick([(np.zeros((1, 2, 1, 2, 1, 2)), "6d"), (np.zeros(3, "M8[ns]"), "date"), (np.zeros(3, "e"), "half"),
                           ([1, 2], "list"), (np.zeros(3, "O"), "object")])
        arrs = [good, bad] if c.coin() else [bad, good]
        c.sig(why)
        try:
            rc.CompressFile(f.encode(), b"m", arrs, [(b"a", 0), (b"b", 0)], int(c.pick([0, 1])), 1, 0)
        except (ValueError, TypeError):
            c.seen("refused")
        else:
            c.fail("accepted", f"CompressFile accepted a {why} column")
        try:
            rc.CompressFile(d.f("no/such/dir.sds").encode(), b"m", [good], [(b"a", 0)], 1, 1, 0)
        except ValueError:
            c.seen("refused")
        else:
            c.fail("nodir", "CompressFile reported success in a directory that does not exist")
        rc.CompressFile(f.encode(), b"m", [good], [(b"a", 0)], 1, 1, 0)
        compare(c, "after", rc.DecompressFile(f.encode(), 3)[0][1][0], good, lambda: f"after a refusal ({why})")


FAMILIES = [("roundtrip", 10, roundtrip), ("include", 2, include), ("info", 1, info), ("band", 0.6, band), ("share", 1.5, share), ("refuse", 0.3, refuse)]
