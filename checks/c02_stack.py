import numpy as np
import riptide_cpp as rc

import gen
import sdsgen as sg

PROPERTY = "C02"
FLAVOURS = {"quick": {"rel": 12000, "asan": 2500}, "thorough": {"rel": 60000, "asan": 12000}}
RULE = ("One case draws 1 to 7 data sets (columns present or missing per file, dtype per file within a convertible class, dimensions, order, "
        "row counts, compression, bands), writes them as files, as appended sections of one file, or as a concatenation, and reads them "
        "stacked or one by one, whole, with a row mask or with an item list, under a threading mode; values, dtypes, row boundaries, names, "
        "metadata and file names must equal a numpy model of stacking. A signature is (how, mask class, column class, dtypes folded, dimensions, "
        "gap, length class).")
ASSUMPTIONS = ["data sets (file type 2): all columns of a file have the same number of rows and carry the container flag",
               "common type: the larger of one class; integers with float32 above 16 bits give float64; signed with unsigned give the next signed "
               "type, at most int64; int64 with uint64 (documented sign loss) and uint64 values above the int64 range are not mixed",
               "two-dimensional columns of both orders are not mixed; more dimensions only in C order",
               "the sections= keyword is accepted by the module but has no effect; not claimed"]

B1 = [np.dtype(k) for k in "?bhiqfd"]
NUM = [np.dtype(k) for k in "?bhiqBHIQfdg"]
RANK = {"?": 0, "b": 1, "B": 2, "h": 3, "H": 4, "i": 5, "I": 6, "q": 9, "l": 9, "Q": 10, "L": 10, "f": 11, "d": 12, "g": 13}
BYRANK = {v: np.dtype(k) for k, v in RANK.items() if k not in "lL"}


def cls(dt):
    return "s" if dt.kind in "SU" else "f" if dt.kind == "f" else "u" if dt.kind == "u" else "i"


def fold(m, o):
    """The stacked type of a master and another column's type."""
    if cls(m) == "s":
        w = max(x.itemsize // (4 if x.kind == "U" else 1) for x in (m, o))
        return np.dtype(("U" if "U" in (m.kind, o.kind) else "S") + str(w))
    if m == o:
        return m
    rm, ro = RANK[m.char], RANK[o.char]
    if cls(m) == cls(o):
        return m if rm > ro else o
    if "f" in (cls(m), cls(o)):
        f, i = (rm, ro) if cls(m) == "f" else (ro, rm)
        return BYRANK[12] if i >= 5 and f < 12 else BYRANK[f]
    new = max(rm, ro) | 1  # the next signed type
    return BYRANK[9 if new >= 7 else new]


def conv(a, dt):
    if dt.kind in "SU":
        return a.astype(dt) if a.dtype.kind == dt.kind else np.array([[x] if False else x.decode("latin1") for x in a.ravel()], dt).reshape(a.shape)
    a = a.copy()
    if a.dtype == dt:
        return a
    return gen.convert(a, dt)


def gap(dt, shape):
    if dt.kind in "SU":
        return np.zeros(shape, dt)
    return np.full(shape, False if dt.kind == "b" else gen.inv(dt), dt)


def column_spec(c):
    """A column: its dtype in each file, trailing dimensions and order."""
    x = c.rng.random()
    if x < 0.25:
        w = [int(c.pick([1, 2, 3, 8, 20])) for _ in range(3)]
        kinds = c.pick(["S", "U", "SU"])
        pool = [np.dtype(f"{k}{v}") for k in kinds for v in w]
    elif x < 0.6:
        pool = [c.pick(NUM)]
    else:
        pool = [np.dtype(k) for k in c.pick(["?bhiq", "BHIQ", "fd", "bhiqfd", "BHIfd", "bBhHiI", "?f", "bB", "iI", "hf", "if", "qd", "qI", "Id", "?B", "fdg"])]
    y = c.rng.random()
    tail, order = (), "C"
    if y < 0.2:
        tail = (int(c.pick([1, 2, 3, 7])),)
        order = c.pick(["C", "C", "F"])
        if order == "F":
            pool = pool[:1] if pool[0].kind not in "SU" else [c.pick(NUM)]
            tail = (int(c.pick([2, 3, 7])),)
    elif y < 0.26:
        tail = (2, int(c.pick([1, 3])))
    return pool, tail, order


def column(c, spec, n):
    pool, tail, order = spec
    dt = c.pick(pool)
    k = int(np.prod(tail)) if tail else 1
    a = gen.strings(c, dt.kind, n * k, dt.itemsize // (4 if dt.kind == "U" else 1)).astype(dt) if dt.kind in "SU" else (
        gen.values(c, np.dtype("d"), n * k, "small").astype("g") if dt.char == "g" else gen.values(c, dt, n * k))
    if dt.char == "Q" and len(pool) > 1:
        a[a < 2 ** 64 - 1] //= 2
    if len(pool) > 1 and dt.kind == "f" and any(p.kind != "f" for p in pool):
        pass
    a = a.reshape((n,) + tail)
    return np.asfortranarray(a) if order == "F" else a


class Set:
    """One data set as written: name -> array, metadata, flags."""


def draw_sets(c, k):
    ncol = int(c.pick([1, 1, 2, 3, 5, 10]))
    names = [n for n in sg.names(c, ncol)]
    specs = [column_spec(c) for _ in names]
    big = 0.1 if ncol <= 3 and k <= 4 else 0.0
    out = []
    for i in range(k):
        s = Set()
        n = gen.length(c, big=big, huge=0) if c.coin(0.9) else 0
        have = [j for j in range(ncol) if c.coin(0.85)] or [0]
        if c.coin(0.3):
            c.rng.shuffle(have)
        s.cols = {names[j]: column(c, specs[j], n) for j in have}
        s.n = n
        s.meta = f"meta {i}".encode() * int(c.pick([1, 1, 100]))
        out.append(s)
    return names, specs, out


def write(c, f, s, **kw):
    if c.coin(0.25):
        kw["bandsize"] = int(c.pick([10000, 12345, 1]))
    rc.CompressFile(f.encode(), s.meta, list(s.cols.values()), [(n, 1) for n in s.cols], int(c.pick([0, 1, 1])), int(c.pick([1, 3])), 2, **kw)


def model(sets, include=None):
    """(names in order of first appearance, name -> stacked array)"""
    order, dts, tails, fo = [], {}, {}, {}
    for s in sets:
        for n, a in s.cols.items():
            if include is not None and n not in include:
                continue
            if n not in dts:
                order.append(n)
                dts[n], tails[n] = a.dtype, a.shape[1:]
            else:
                dts[n] = fold(dts[n], a.dtype)
    return order, {n: [conv(s.cols[n], dts[n]) if n in s.cols else gap(dts[n], (s.n,) + tails[n]) for s in sets] for n in order}, dts


def check_stack(c, how, r, sets, fnames, include, mask, t):
    arrays, infos, cutoffs, metas, files, header = r
    order, cols, dts = model(sets, include)
    rows = [s.n for s in sets]
    det = lambda: f"{how} rows {rows} {t} {'mask ' + str(len(mask)) if mask is not None else ''}"  # noqa: E731
    got = [i.itemname for i in infos]
    c.check(got == order, "names", lambda: f"items {got}, expected {order}; {det()}")
    c.check(all(i.flags == 1 for i in infos), "flags", lambda: f"flags {[i.flags for i in infos]}; {det()}")
    c.check(list(metas) == [s.meta for s in sets], "meta", lambda: f"metadata differs; {det()}")
    c.check([f if isinstance(f, str) else f.decode() for f in files] == fnames, "files", lambda: f"files {files}, expected {fnames}; {det()}")
    if mask is not None:
        ends = np.cumsum(rows)
        keep = [mask[e - n:e] for e, n in zip(ends, rows)]
        rows = [int(k.sum()) for k in keep]
    cut = np.cumsum(rows)
    for i, n in enumerate(order):
        c.check(np.array_equal(cutoffs[i], cut), "cutoffs", lambda: f"boundaries {cutoffs[i]} of {n}, expected {cut}; {det()}")
        parts = cols[n]
        if mask is not None:
            parts = [np.concatenate([p, np.zeros((len(k) - len(p),) + p.shape[1:], p.dtype)])[k] if len(k) > len(p) else p[:len(k)][k]
                     for p, k in zip(parts, keep)]
        want = np.concatenate(parts)
        miss = [n in s.cols for s in sets]
        src = "".join(sorted({s.cols[n].dtype.str[1:] for s in sets if n in s.cols}))
        gen.expect(c, "col", arrays[i], want.astype(dts[n]), lambda: f"column {n!r} from {src} present {miss}; {det()}")
        c.seen("stacked-rows", len(want))
        c.sig(how, mask is not None, src, len(want.shape), all(miss), "L" if len(want) > 10000 else "M" if len(want) > 100 else len(want) // 20)


def fail_ok(sets):
    """Stacks the module may refuse: none of the drawn ones."""
    return False


def readmask(c, total):
    if c.coin(0.6) or not total:
        return None
    p = c.pick([0.0, 0.02, 0.5, 0.98, 1.0])
    m = c.rng.random(total) < p
    if c.coin(0.3):  # runs: whole files and bands without a selected row
        m &= np.repeat(c.rng.random(total // 50 + 1) < 0.4, 50)[:total]
    m, _ = gen.layout(c, m, ["c", "c", "step", "ro"])
    return m


def stack(c):
    k = int(c.pick([1, 2, 2, 3, 4, 7]))
    names, specs, sets = draw_sets(c, k)
    t = gen.threads(c, rc)
    with sg.Dir(c) as d:
        how = c.pick(["files", "files", "sections", "concat"])
        fnames = [d.f(f"f{i}.sds") for i in range(k)]
        if how == "sections":
            f = d.f("all.sds")
            for i, s in enumerate(sets):
                first = c.coin(0.2) and i == 0  # the first part may have been written without a section name
                write(c, f, s, **({} if first else {"section": c.pick([f"s{i}", "long section name " * 3 + str(i), "é%d" % i])}))
            reads, labels = [f], [f] * k
        else:
            for f, s in zip(fnames, sets):
                write(c, f, s)
            reads, labels = fnames, fnames
        if how == "concat":
            out = d.f("cat.sds")
            gen.threads(c, rc)
            rc.MultiConcatFiles(fnames, output=out)
            reads, labels = [out], [out] * k
        gen.threads(c, rc)
        kw = {}
        include = None
        if c.coin(0.25):
            include = [n for n in names if c.coin(0.5)] or [names[0]]
            for s in sets:  # the module knows the rows of a set only through its listed columns
                if not any(n in s.cols for n in include):
                    include.append(next(iter(s.cols)))
            kw["include"] = [n if c.coin() else n.decode() for n in include]
        mask = readmask(c, sum(s.n for s in sets))
        if mask is not None:
            kw["mask"] = mask
        fn = rc.MultiPossiblyStackFiles if how == "concat" and c.coin() else rc.MultiStackFiles
        r = fn(reads, **kw)
        check_stack(c, how, r, sets, labels, include, mask, t)
        c.sample(f"{how} {k} sets rows {[s.n for s in sets]} mask {mask is not None}: equal")


def one_by_one(c):
    """The sections or files read without stacking."""
    k = int(c.pick([1, 2, 3, 5]))
    names, specs, sets = draw_sets(c, k)
    t = gen.threads(c, rc)
    with sg.Dir(c) as d:
        how = c.pick(["files", "sections"])
        if how == "sections":
            f = d.f("all.sds")
            for i, s in enumerate(sets):
                write(c, f, s, section=f"s{i}")
            reads = [f]
        else:
            reads = [d.f(f"f{i}.sds") for i in range(k)]
            for f, s in zip(reads, sets):
                write(c, f, s)
        kw = {}
        mask = None
        total = max(s.n for s in sets)
        forder = any(a.flags.f_contiguous and not a.flags.c_contiguous for s in sets for a in s.cols.values())
        if c.coin(0.4) and total and (how == "files" or k == 1) and not forder:
            mask = readmask(c, min(s.n for s in sets) if c.coin() else total)
            if mask is not None:
                kw["mask"] = mask
        res = rc.MultiDecompressFiles(reads, 3, **kw)
        c.check(len(res) == k, "count", lambda: f"{len(res)} results for {k} parts")
        for i, (r, s) in enumerate(zip(res, sets)):
            det = lambda: f"{how} part {i} of {k} rows {[x.n for x in sets]} {t} {'mask ' + str(len(mask)) if mask is not None else ''}"  # noqa: E731
            c.check(r[0] == s.meta, "one:meta", lambda: f"metadata differs; {det()}")
            c.check([x.itemname for x in r[2]] == list(s.cols), "one:names", lambda: f"items {[x.itemname for x in r[2]]}, expected {list(s.cols)}; {det()}")
            for g, (n, w) in zip(r[1], s.cols.items()):
                if mask is not None:
                    m = mask[:len(w)]
                    w = w[:len(m)][m]
                gen.expect(c, "one", g, w, lambda: f"column {n!r} {w.dtype} {w.shape}; {det()}")
                c.sig("one", how, mask is not None, w.dtype.char, w.ndim, "L" if len(w) > 10000 else "M" if len(w) > 100 else len(w) // 20)
        c.seen("parts", k)
        if how == "sections" and k > 1:
            c.check(list(res[0][3]["Sections"]) == [b"s%d" % i for i in range(k)] or list(res[0][3]["Sections"]) == [f"s{i}" for i in range(k)],
                    "sections", lambda: f"sections {res[0][3]['Sections']}; {t}")


def bands(c):
    """Long columns in bands, with masks which leave whole bands and files out."""
    k = int(c.pick([1, 2, 3]))
    sets = []
    specs = [column_spec(c) for _ in range(int(c.pick([1, 2])))]
    for i in range(k):
        s = Set()
        s.n = int(c.rng.integers(1, 60000)) if c.coin(0.9) else int(c.pick([10000, 20000, 30000, 10001, 0]))
        s.cols = {b"col%d" % j: column(c, sp, s.n) for j, sp in enumerate(specs)}
        s.meta = b"m%d" % i
        sets.append(s)
    total = sum(s.n for s in sets)
    t = gen.threads(c, rc)
    with sg.Dir(c) as d:
        fs = [d.f(f"f{i}.sds") for i in range(k)]
        for f, s in zip(fs, sets):
            rc.CompressFile(f.encode(), s.meta, list(s.cols.values()), [(n, 1) for n in s.cols], int(c.pick([0, 1])), 1, 2,
                            bandsize=int(c.pick([10000, 10000, 12345, 17])))
        mask, kw = None, {}
        if c.coin(0.8) and total:
            w = int(c.pick([100, 3000, 10000, 20000]))
            mask = np.repeat(c.rng.random(total // w + 1) < 0.4, w)[:total] & (c.rng.random(total) < c.pick([1.0, 0.5, 0.01]))
            kw["mask"] = mask
        check_stack(c, "bands", rc.MultiStackFiles(fs, **kw), sets, fs, None, mask, t)


def missing(c):
    """Files that do not exist: skipped, or an error with mustexist."""
    k = int(c.pick([1, 2, 3]))
    names, specs, sets = draw_sets(c, k)
    with sg.Dir(c) as d:
        fs = [d.f(f"f{i}.sds") for i in range(k)]
        for f, s in zip(fs, sets):
            write(c, f, s)
        at = int(c.rng.integers(0, k + 1))
        reads = fs[:at] + [d.f("absent.sds")] + fs[at:]
        try:
            rc.MultiStackFiles(reads, mustexist=True)
        except ValueError:
            c.seen("refused")
        else:
            c.fail("mustexist", f"a stack of {reads} with mustexist succeeded although one file is missing")
        r = rc.MultiStackFiles(reads)
        check_stack(c, "absent", r, sets, fs, None, None, "")


FAMILIES = [("stack", 10, stack), ("one", 3, one_by_one), ("missing", 0.5, missing), ("bands", 1.5, bands)]


def forder_mask(c):
    """Known finding: one file, a row mask and a two-dimensional Fortran-order column."""
    a = np.asfortranarray(np.arange(30.0).reshape(10, 3))
    m = np.zeros(10, bool)
    m[[1, 4, 5]] = True
    with sg.Dir(c) as d:
        f = d.f("f.sds")
        rc.CompressFile(f.encode(), b"", [a], [(b"a", 1)], 1, 1, 2)
        r = rc.MultiDecompressFiles([f], 3, mask=m)[0][1][0]
        c.check(r.shape == (3, 3), "forder-mask", lambda: f"shape {r.shape}")
        c.check(sum((n - 1) * s for n, s in zip(r.shape, r.strides)) + 8 <= r.nbytes, "forder-mask",
                lambda: f"10x3 float64 in Fortran order read with a mask of 3 rows: strides {r.strides} reach past the {r.nbytes} bytes of the result")
        c.check(np.array_equal(r, a[m]), "forder-mask", lambda: f"10x3 float64 in Fortran order read with a mask of 3 rows gave {r}")


PINNED = [("forder_mask", "rel", forder_mask)]
