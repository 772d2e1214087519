import numpy as np
import riptide_cpp as rc

import gen
from gen import is_inv

PROPERTY = "C07"
FLAVOURS = {"quick": {"rel": 50000, "asan": 9000}, "thorough": {"rel": 600000, "asan": 80000}}
RULE = ("One case draws a unary operation, a dtype, 0 to 3 dimensions, a memory layout, a length around the vector and thread thresholds, an "
        "output mode and a threading mode, and compares every element with a numpy reference. A signature is (operation, dtype, layout, "
        "output mode, length class, threading mode).")
ASSUMPTIONS = ["numpy is the reference; round is half to even; transcendental functions within a few units in the last place"]

ABS, NEG, INVERT, FLOOR, CEIL, TRUNC, ROUND, NEGATIVE, SIGN, EXP, EXP2 = 201, 202, 204, 205, 206, 207, 208, 212, 214, 216, 217
SQRT, LOG, LOG2, LOG10, CBRT = 301, 302, 303, 304, 308
NOT, ISINF, ISNAN, ISFINITE, ISNORMAL, NOTINF, NOTNAN, NOTFINITE, NOTNORMAL, NANZERO, SIGNBIT, BNOT = (601, 603, 604, 605, 606, 607, 608, 609,
                                                                                                       610, 611, 612, 701)
NAMES = {ABS: "abs", NEG: "neg", INVERT: "invert", FLOOR: "floor", CEIL: "ceil", TRUNC: "trunc", ROUND: "round", NEGATIVE: "negative",
         SIGN: "sign", EXP: "exp", EXP2: "exp2", SQRT: "sqrt", LOG: "log", LOG2: "log2", LOG10: "log10", CBRT: "cbrt", NOT: "not",
         ISINF: "isinf", ISNAN: "isnan", ISFINITE: "isfinite", ISNORMAL: "isnormal", NOTINF: "isnotinf", NOTNAN: "isnotnan",
         NOTFINITE: "isnotfinite", NOTNORMAL: "isnotnormal", NANZERO: "isnanorzero", SIGNBIT: "signbit", BNOT: "bitnot"}
FL = gen.FLOATS + [np.dtype("g")]
INTS = [d for d in gen.NUM if d.kind in "iu"]
EXACT = [ABS, NEG, INVERT, FLOOR, CEIL, TRUNC, ROUND, NEGATIVE, SIGN, SQRT, BNOT]
TRANS = [EXP, EXP2, LOG, LOG2, LOG10, CBRT]
PRED = [NOT, ISINF, ISNAN, ISFINITE, ISNORMAL, NOTINF, NOTNAN, NOTFINITE, NOTNORMAL, NANZERO, SIGNBIT]


def reference(op, x):
    """(expected, rtol) or None when the value is open."""
    k = x.dtype.kind
    with np.errstate(all="ignore"):
        if op == ABS:
            return np.abs(x), 0
        if op in (NEG, NEGATIVE):
            return (-x if k != "u" else None), 0
        if op in (INVERT, BNOT):
            return ~x, 0
        if op == SIGN:
            return np.sign(x).astype(x.dtype), 0
        if op in (FLOOR, CEIL, TRUNC):
            return {FLOOR: np.floor, CEIL: np.ceil, TRUNC: np.trunc}[op](x), 0
        if op == ROUND:
            return np.rint(x), 0
        if op in (SQRT, EXP, EXP2, LOG, LOG2, LOG10, CBRT):
            f = {SQRT: np.sqrt, EXP: np.exp, EXP2: np.exp2, LOG: np.log, LOG2: np.log2, LOG10: np.log10, CBRT: np.cbrt}[op]
            v = x if k == "f" else x.astype("d")
            r = f(v)
            return r, 0 if op == SQRT else {"f": 1e-5, "d": 1e-13, "g": 1e-13}[r.dtype.char]
        if k in "SU":
            empty = x == x.dtype.type()
            nan, inf, zero, normal = empty, np.zeros(x.shape, bool), empty, None
            nz = empty
        elif k == "f":
            nan, inf = np.isnan(x), np.isinf(x)
            normal = np.isfinite(x) & (np.abs(x) >= np.finfo(x.dtype).tiny)
            nz = nan | (x == 0)
        else:
            nan = is_inv(x) if k != "b" else np.zeros(x.shape, bool)
            inf, normal = np.zeros(x.shape, bool), None
            nz = nan | (x == 0)
        if op == NOT:
            return x == 0, 0
        if op == SIGNBIT:
            return np.signbit(x), 0
        r = {ISINF: inf, NOTINF: ~inf, ISNAN: nan, NOTNAN: ~nan, ISFINITE: ~(nan | inf), NOTFINITE: nan | inf, NANZERO: nz,
             ISNORMAL: normal, NOTNORMAL: None if normal is None else ~normal}[op]
        return r, 0


def ndlayout(c, x):
    """Shapes with 2 or 3 dimensions in various orders; returns (array, name)."""
    n = x.size
    f = [d for d in (2, 3, 4, 5, 7, 8, 16) if n % d == 0 and n >= d]
    if not f:
        return x.reshape(1, n), "1xn"
    d = int(c.pick(f))
    sh = [d, n // d] if c.coin() else [n // d, d]
    if c.coin(0.3):
        for e in (2, 3, 5):
            if sh[1] % e == 0 and sh[1]:
                sh = [sh[0], sh[1] // e, e]
                break
    v = x.reshape(sh)
    k = c.pick(["C", "F", "T", "Crow", "Ccol", "Frow", "Fcol", "Crev", "Frev", "mid", "gap"])
    nd = v.ndim
    if k == "C":
        a = np.ascontiguousarray(v)
    elif k == "F":
        a = np.asfortranarray(v)
    elif k == "T":
        a = np.ascontiguousarray(v.transpose(tuple(range(nd))[::-1])).transpose(tuple(range(nd))[::-1])
    else:
        order = "F" if k[0] == "F" else "C"
        axis = 0 if k.endswith("row") or k.endswith("rev") else nd - 1 if k != "mid" else nd // 2
        if k == "gap":
            b = np.zeros([s + 2 for s in sh], x.dtype)
            a = b[tuple(slice(1, s + 1) for s in sh)]
        elif k.endswith("rev"):
            b = np.zeros(sh, x.dtype, order=order)
            a = b[::-1] if c.coin() else b[..., ::-1]
        else:
            s2 = list(sh)
            s2[axis] *= 2
            b = np.zeros(s2, x.dtype, order=order)
            sl = [slice(None)] * nd
            sl[axis] = slice(None, None, 2) if c.coin() else slice(sh[axis], None)
            a = b[tuple(sl)]
        a[...] = v
    return a, k


def case(c, ops, dts):
    op = c.pick(ops)
    dt = c.pick(dts)
    if op in (INVERT, BNOT):
        dt = c.pick(INTS + [gen.BOOL])
    elif op in (FLOOR, CEIL, TRUNC, ROUND, SIGNBIT):
        dt = c.pick(FL)
    nm = NAMES[op]
    n = gen.length(c)
    tm = gen.threads(c, rc)
    if op in TRANS and dt.kind == "f" and c.coin(0.7):
        x = (c.rng.random(n) * 40 - (20 if op in (EXP, EXP2, CBRT) else 0)).astype(dt)
    else:
        x = gen.values(c, dt, n)
    if c.coin(0.25) and n:
        xa, lay = ndlayout(c, x)
        x = np.array(xa)
    elif c.coin(0.02):
        x = x[:1].reshape(()) if n else x
        xa, lay = x.copy(), "0d"
    else:
        xa, lay = gen.layout(c, x)
    if c.coin(0.01) and dt.itemsize > 1 and dt.kind in "iuf" and dt.char != "g":
        xa, lay = xa.astype(dt.newbyteorder()), "swap"
    keep = np.array(xa, copy=True)
    exp, rtol = reference(op, x)
    out, omode = None, "new"
    if exp is not None and c.coin(0.25):
        omode = c.pick(["out", "outstep", "inplace", "outshape"])
        if omode == "inplace":
            out = xa if xa.dtype == exp.dtype and lay != "swap" else None
        else:
            od = exp.dtype
            out = np.empty(exp.shape, od) if omode != "outshape" or exp.ndim == 0 else np.empty(exp.size, od)
            if omode == "outstep" and exp.ndim >= 1:
                out = np.zeros(exp.shape[:-1] + (exp.shape[-1] * 2,), od)[..., ::2]
            if out.size:
                out[...] = gen.values(c, od, 1)[0]
        if out is None:
            omode = "new"
    before = None if out is None else out.copy()
    args = (xa, out) if out is not None else ((xa,) if c.coin() else xa)
    if out is None and c.coin():
        r = rc.BasicMathUnaryOp(xa, op)
    else:
        r = rc.BasicMathOneInput(args, op, 0)
    c.sig(nm, dt.char, lay, omode, "L" if n > 32768 else n if n < 80 else "M", tm)
    det = f"{nm} {dt} n={n} shape={x.shape} layout {lay} out={omode} {tm}"
    if out is not xa:
        c.check(xa.tobytes() == keep.tobytes(), f"{nm}:input-changed", lambda: det)
    if r is None:
        c.seen("punted")
        if out is not None:
            c.check(bool(gen.same(out, before).all()), f"{nm}:punt-wrote", lambda: f"output changed though the call punted; {det}")
        return
    c.seen("computed:" + nm)
    c.check(lay != "swap", f"{nm}:swapped", lambda: f"computed on byte-swapped data; {det}")
    if exp is None:
        c.seen("open")
        return
    if omode == "outshape":
        exp = exp.reshape(-1) if lay in ("C", "1xn", "c") or exp.ndim < 2 else exp.reshape(-1)
    r = np.asarray(r)
    exp = np.asarray(exp)
    if x.ndim == 0:
        exp = exp.reshape(r.shape) if r.size == 1 else exp
    if op == ROUND or op in (FLOOR, CEIL, TRUNC):
        exp = exp + x.dtype.type(0)
        r = np.asarray(r + x.dtype.type(0))
    if x.dtype.kind in "iu" and op in (SQRT, *TRANS) and r.shape == exp.shape and r.dtype == exp.dtype:
        exp = np.where(is_inv(x).reshape(exp.shape), r, exp)  # an invalid integer as a plain number or as NaN: left open
    gen.expect(c, nm, r, exp, det, rtol=rtol, atol=rtol and 1e-40)
    c.sample(det)


def stringcase(c):
    op = c.pick([ISNAN, NOTNAN, ISINF, NOTINF, ISFINITE, NOTFINITE, NANZERO])
    n = gen.length(c)
    tm = gen.threads(c, rc)
    x = gen.strings(c, c.pick("SU"), n)
    xa, lay = gen.layout(c, x)
    r = rc.BasicMathUnaryOp(xa, op)
    det = f"{NAMES[op]} {x.dtype} n={n} layout {lay} {tm}"
    c.sig(NAMES[op], str(x.dtype), lay, "new", "L" if n > 32768 else n if n < 80 else "M", tm)
    if r is None:
        c.seen("punted")
        return
    gen.expect(c, NAMES[op], r, reference(op, x)[0], det)


FAMILIES = [
    ("exact", 3, lambda c: case(c, EXACT, [d for d in gen.NUM if d.kind == "i"] + FL * 2)),
    ("trans", 1, lambda c: case(c, TRANS, FL * 3 + [np.dtype(t) for t in "iIlqQ"])),
    ("pred", 2, lambda c: case(c, PRED, gen.NUM + [gen.BOOL] + FL * 3)),
    ("strings", 0.3, stringcase),
]
