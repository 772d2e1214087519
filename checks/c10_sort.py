import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C10"
FLAVOURS = {"quick": {"rel": 14000, "asan": 2600}, "thorough": {"rel": 150000, "asan": 30000}}
RULE = ("One case draws keys (1 to 4, numeric, string, unicode or void), values with many ties, NaNs and signed zeros, lengths around the "
        "merge and thread thresholds, layouts, ascending/descending flags, partitions or a starting index, and a threading mode, and "
        "compares with numpy's stable lexsort (a stable order is unique). A signature is (operation, key dtypes, layout, length class, "
        "direction, index/cutoffs, threading mode).")
ASSUMPTIONS = ["void (record) keys may use any total order, the same in every call", "-0.0 and 0.0 are equal; NaNs sort last in both directions; strings order by bytes, unicode by code point"]

DTS = gen.NUM + gen.FLOATS + [np.dtype("l"), np.dtype("L"), np.dtype("g")]


def key(c, n, kinds="nnnnSU"):
    k = c.pick(kinds)
    if k == "n":
        dt = c.pick(DTS)
        x = gen.values(c, dt, n, c.pick([None, "dense", "dense"]) if dt.kind != "b" else None)
        if n and dt.kind == "f" and c.coin(0.3):
            x[c.rng.random(n) < 0.2] = -0.0
        if n > 10 and c.coin(0.3):  # presorted and almost presorted
            x = np.sort(x)
            if c.coin():
                x = x[::-1].copy()
            if c.coin(0.4):
                i = int(c.rng.integers(0, n))
                x[i] = x[int(c.rng.integers(0, n))]
        return x
    return gen.strings(c, k, n)


def rank(x, asc=True):
    u, r = np.unique(x, return_inverse=True)
    r = r.reshape(-1).astype(np.int64)
    if not asc:
        nan = gen.is_inv(u) if u.dtype.kind == "f" else np.zeros(len(u), bool)
        r = np.where(nan[r] if len(u) else np.zeros(0, bool), r, -r - 1)
    return r


def cls(n):
    return "L" if n > 32768 else "M" if n > 300 else n // 16


def lexsort(c):
    n = gen.length(c, big=0.15, huge=0.01)
    nk = int(c.pick([1, 1, 1, 2, 2, 3, 4]))
    if n > 60000:
        nk = min(nk, 2)
    keys = [key(c, n) for _ in range(nk)]
    lays = [gen.layout(c, k) if c.coin(0.95) or k.dtype.kind == "S" or k.dtype.char == "g" else (
        k.astype(k.dtype.newbyteorder()), "swap") for k in keys]
    bits = c.pick([32, 64])
    idt = np.int32 if bits == 32 else np.int64
    tm = gen.threads(c, rc)
    kw, asc = {}, [True] * nk
    how = c.pick(["all", "all", "scalar", "array"])
    if how == "scalar":
        asc = [c.coin()] * nk
        kw["ascending"] = asc[0]
    elif how == "array":
        asc = [c.coin() for _ in range(nk)]
        kw["ascending"] = np.array(asc)
    part = c.pick(["none", "none", "index", "cutoffs"])
    ranks = [rank(k, a) for k, a in zip(keys, asc)]
    if part == "index":
        m = int(c.rng.integers(0, n + 1))
        idx = c.rng.permutation(n)[:m].astype(idt)
        exp = idx[np.lexsort([r[idx] for r in ranks])] if m else idx.copy()
        kw["index"] = idx
    elif part == "cutoffs":
        if n == 0:
            cut = np.array([0], "q")
        else:
            cut = np.unique(np.concatenate([c.rng.integers(0, n + 1, int(c.rng.integers(0, 9))), [n]])).astype("q")
            if c.coin(0.2):
                cut = np.sort(np.concatenate([cut, cut[:1], [n]])).astype("q")  # empty partitions
        exp = np.concatenate([np.lexsort([r[a:b] for r in ranks]) for a, b in zip(np.r_[0, cut[:-1]], cut)] or [np.zeros(0)]).astype(idt)
        kw["cutoffs"] = cut
    else:
        exp = np.lexsort(ranks)
    det = f"lexsort{bits} {[k.dtype.str for k in keys]} layouts {[b for _, b in lays]} n={n} asc={asc} {part} {kw.get('cutoffs')} {tm}"
    c.sig("lexsort", "".join(k.dtype.kind + str(min(k.dtype.itemsize, 17)) for k in keys), lays[0][1], cls(n), how, part, tm)
    arrs = [a for a, _ in lays]
    keep = [a.tobytes() for a in arrs]
    f = rc.LexSort32 if bits == 32 else rc.LexSort64
    got = f(arrs, **kw) if c.coin(0.7) else f(*arrs, **kw)
    gen.expect(c, f"lexsort:{part}", got, exp.astype(idt), det)
    c.check(all(a.tobytes() == b for a, b in zip(arrs, keep)), "lexsort:input-changed", det)
    c.sample(det)
    if part != "none" and part != "cutoffs" and c.coin(0.3):
        return
    grp(c, arrs, keys, ranks, got, kw, part, idt, det, n)


def grp(c, arrs, keys, ranks, got, kw, part, idt, det, n):
    """Groups of equal rows, numbered in sort order."""
    if any(k.dtype.kind == "f" for k in keys):
        # grouping compares the bits: only where equal values have equal bits
        if any(((k == 0) & np.signbit(k)).any() or k.dtype.itemsize > 8 for k in keys if k.dtype.kind == "f"):
            c.seen("open:bits")
            return
    if len(arrs) == 1:
        vals = arrs[0]
    else:
        vals = np.rec.fromarrays([np.ascontiguousarray(a) for a in keys])
    if not vals.dtype.isnative:
        vals = keys[0].copy()
    if vals.dtype.itemsize == 0 or any(k.dtype.hasobject for k in keys):
        return
    base = c.pick([None, 0, 1])
    g = {} if base is None else {"base_index": base}
    if part == "cutoffs":
        g["cutoffs"] = kw["cutoffs"]
        lex = got.copy()
    else:
        lex = got
    r = rc.GroupFromLexSort(lex, vals, **g)
    c.seen("grouped")
    cut = kw["cutoffs"] if part == "cutoffs" else np.array([len(got)], "q")
    ik, first, cnt, uc = np.zeros(n, np.int64), [], [], []
    full, cur, s = got.astype(np.int64).copy(), 0, 0
    R = np.stack(ranks) if n else np.zeros((len(ranks), 0), "q")
    for e in cut:
        full[s:e] += s if part == "cutoffs" else 0
        o = full[s:e]
        if len(o):
            new = np.r_[True, (R[:, o[1:]] != R[:, o[:-1]]).any(axis=0)]
            ik[o] = np.cumsum(new) + cur
            b = np.flatnonzero(new)
            first.append(o[b])
            cnt.append(np.diff(np.r_[b, len(o)]))
            cur += len(b)
        uc.append(cur)
        s = e
    if base == 0 and part != "cutoffs":
        ik = ik - 1
    det = "group " + det + f" base {base}"
    c.check(len(r) == (4 if part == "cutoffs" else 3), "group:len", det)
    gk = r[0]
    if part == "index":  # the rows left out keep no group
        m = np.zeros(n, bool)
        m[got] = True
        gk, ik = np.where(m, gk, 0).astype(idt), np.where(m, ik, 0)
    gen.expect(c, f"group:{part}:ikey", gk, ik.astype(idt), det)
    gen.expect(c, f"group:{part}:first", r[1], np.concatenate(first + [np.zeros(0)]).astype(idt), det)
    gen.expect(c, f"group:{part}:count", r[2], np.concatenate([[0]] + cnt).astype(idt), det)
    if part == "cutoffs":
        gen.expect(c, "group:cutoffs:uniques", r[3], np.array(uc, "q"), det)
        gen.expect(c, "group:cutoffs:igroup", lex, full.astype(idt), det)


def void(c):
    """Raw bytes: any total order will do, as long as it is the same one everywhere, with equal rows together and in row order."""
    n = gen.length(c, lo=1, big=0.1, huge=0)
    s = gen.strings(c, "S", n)
    w = s.dtype.itemsize
    x = np.ascontiguousarray(s).view(f"V{w}")
    bits = c.pick([32, 64])
    f, idt = (rc.LexSort32, np.int32) if bits == 32 else (rc.LexSort64, np.int64)
    tm = gen.threads(c, rc)
    det = f"void width {w} n={n} {bits} {tm}"
    c.sig("void", w, cls(n), bits, tm)
    got = f([x])
    c.check(bool((np.sort(got) == np.arange(n)).all()), "void:permutation", det)
    _, ids = np.unique(s, return_inverse=True)
    ids = ids.reshape(-1)
    o = ids[got]
    new = np.r_[True, o[1:] != o[:-1]]
    c.check(int(new.sum()) == len(np.unique(ids)), "void:apart", lambda: f"equal rows are not together; {det}")
    rank_of = np.zeros(ids.max() + 1, np.int64)
    rank_of[o[new]] = np.arange(int(new.sum()))
    r = rank_of[ids]
    gen.expect(c, "void:stable", got, np.lexsort([r]).astype(idt), det)
    gen.expect(c, "void:descending", f([x], ascending=False), np.lexsort([-r]).astype(idt), det)
    m = int(c.rng.integers(1, n + 1))
    idx = c.rng.permutation(n)[:m].astype(idt)
    gen.expect(c, "void:index", f([x], index=idx.copy()), idx[np.lexsort([r[idx]])], det)
    k = gen.values(c, np.dtype("i"), n, "dense")
    gen.expect(c, "void:minor", f([k, x]), np.lexsort([k, r]).astype(idt), det)
    gen.expect(c, "void:major", f([x, k]), np.lexsort([r, k]).astype(idt), det)
    c.check(rc.IsSorted(np.ascontiguousarray(x[got])) is True, "void:issorted", det)
    c.check(rc.IsSorted(x) is bool((r[1:] >= r[:-1]).all()), "void:issorted", det)


def same_sorted(c, name, got, x, det):
    e = np.sort(x)  # NaN last
    gen.expect(c, name, got, e, det, dtype=False)


def sort(c):
    dt = c.pick(DTS)
    n = gen.length(c, big=0.2, huge=0.01)
    x = key(c, n, "n")
    mode = int(c.pick([1, 2, 3]))
    if n > 5000 and mode == 1 and len(np.unique(x[:2000])) < 50:
        mode = 2
    tm = gen.threads(c, rc)
    xa, lay = gen.layout(c, x) if c.coin(0.9) or x.dtype.char == "g" else (x.astype(x.dtype.newbyteorder()), "swap")
    op = c.pick(["Sort", "SortInPlace"])
    det = f"{op} mode {mode} {x.dtype} n={n} {lay} {tm}"
    c.sig(op, x.dtype.char, lay, cls(n), mode, tm)
    if op == "Sort":
        keep = xa.tobytes()
        r = rc.Sort(xa, mode)
        c.check(xa.tobytes() == keep, "sort:input-changed", det)
        c.check(not np.shares_memory(r, xa), "sort:shared", det)
    else:
        base = xa.base
        out = [int(c.rng.integers(0, 2))]
        if lay == "step" and n > 1:  # nothing outside the view may change
            b = base if base is not None else xa
            mask = np.ones(len(b), bool)
            mask[::xa.strides[0] // xa.itemsize][:n] = False
            keep = b[mask].tobytes()
        r = rc.SortInPlace(xa, mode)
        if lay == "step" and n > 1:
            c.check(b[mask].tobytes() == keep, "sortinplace:outside", det)
        c.check(out is not None and (np.shares_memory(r, xa) or n == 0), "sortinplace:notsame", det)
        same_sorted(c, "sortinplace:array", xa, x, det)
    same_sorted(c, "sort", r, x, det)


def sort_refuse(c):
    n = int(c.rng.integers(0, 40))
    x = gen.strings(c, c.pick("SU"), n)
    op = c.pick([rc.Sort, rc.SortInPlace])
    c.sig("refuse", x.dtype.kind, op.__name__)
    ro = c.coin(0.3)
    if ro:
        x = gen.values(c, np.dtype("d"), n)
        x.flags.writeable = False
        op = rc.SortInPlace
    keep = x.tobytes()
    try:
        op(x, 2)
        c.fail("refuse", f"{op.__name__} sorted {x.dtype} readonly={ro}")
    except (ValueError, TypeError):
        c.seen("refused")
    c.check(x.tobytes() == keep, "refuse:changed", f"{x.dtype}")


def issorted(c):
    n = gen.length(c, big=0.3)
    x = key(c, n)
    if c.coin(0.7):
        r = rank(x)
        x = x[np.lexsort([r])]
        if n > 1 and c.coin(0.6):  # a single defect at a chosen place
            i = int(c.pick([0, n - 2, n // 2, int(c.rng.integers(0, n))])) % max(n - 1, 1)
            if n > 32768 and c.coin(0.6):  # at the seam of two work chunks
                i = 16384 * int(c.rng.integers(1, n // 16384 + 1)) - int(c.pick([0, 1, 1, 1, 2]))
                i = min(i, n - 2)
            x[i], x[i + 1] = x[i + 1].copy(), x[i].copy()
    xa, lay = gen.layout(c, x, ("c", "off", "mis"))
    tm = gen.threads(c, rc)
    r = rank(x)
    e = bool((r[1:] >= r[:-1]).all())
    det = f"issorted {x.dtype} n={n} {lay} {tm}"
    c.sig("issorted", x.dtype.kind, min(x.dtype.itemsize, 17), cls(n), e, tm)
    got = rc.IsSorted(xa)
    c.seen(f"issorted-{e}")
    c.check(got is e, "issorted", lambda: f"got {got}; {det}")


def indirect(c):
    u = int(c.rng.integers(1, 200))
    n = gen.length(c)
    a, b = c.pick([("i", "i"), ("i", "q"), ("q", "q")])
    perm = c.rng.permutation(u).astype(b)
    x = c.rng.integers(0, u, n).astype(a)
    exp = np.argsort(perm)[x].astype(a)
    c.sig("indirect", a, b, cls(n))
    r = rc.SortInPlaceIndirect(x, perm)
    gen.expect(c, "indirect", r, exp, f"{a}{b} n={n} u={u}")
    gen.expect(c, "indirect:inplace", x, exp, f"{a}{b} n={n} u={u}")


FAMILIES = [("lexsort", 6, lexsort), ("sort", 2, sort), ("void", 0.5, void), ("issorted", 1.5, issorted), ("indirect", 0.3, indirect), ("refuse", 0.2, sort_refuse)]
