"""Shared by C05 and C06: reference model and generator for BasicMathTwoInputs."""
import numpy as np
import riptide_cpp as rc

import gen
from gen import convert, is_inv, norm

ADD, SUB, MUL, MOD, MIN, MAX, FLOORDIV, POWER, REMAINDER = 1, 2, 3, 5, 6, 7, 10, 11, 12
DIV, SUBDT, SUBD = 101, 102, 103
EQ, NE, LT, GT, LE, GE, LAND, LOR = 401, 402, 403, 404, 405, 406, 407, 409
BAND, BXOR, BOR, BANDNOT, BNOTAND = 503, 504, 505, 506, 507
NAMES = {ADD: "add", SUB: "sub", MUL: "mul", MOD: "mod", MIN: "min", MAX: "max", FLOORDIV: "floordiv", POWER: "power",
         REMAINDER: "remainder", DIV: "div", SUBDT: "subdatetimes", SUBD: "subdates", EQ: "eq", NE: "ne", LT: "lt", GT: "gt",
         LE: "le", GE: "ge", LAND: "land", LOR: "lor", BAND: "and", BXOR: "xor", BOR: "or", BANDNOT: "andnot", BNOTAND: "notand"}
LD = np.dtype("g")


def promote(a, b):
    a, b = norm(a), norm(b)
    t = norm(np.result_type(a, b))
    if {a.kind + b.kind} & {"if", "fi", "uf", "fu"} and np.dtype("f") in (a, b):
        return np.dtype("f")  # any integer with float32 stays float32
    return t


def apply(op, x, y, T):
    """Reference: x and y already of the common type T. Returns (result, rtol, atol array)."""
    with np.errstate(all="ignore"):
        k = T.kind
        if op == ADD:
            return (x | y if k == "b" else x + y), 0, 0
        if op == SUB:
            return (x & ~y if k == "b" else x - y), 0, 0
        if op == MUL:
            return (x & y if k == "b" else x * y), 0, 0
        if op == MIN:
            return np.minimum(x, y), 0, 0
        if op == MAX:
            return np.maximum(x, y), 0, 0
        if op == DIV:
            if T.char == "f":
                return x / y, 0, 0
            return x.astype("d") / y.astype("d"), 0, 0
        if op == SUBDT:
            bad = (x == 0) | (y == 0) | is_inv(x) | is_inv(y)
            return np.where(bad, np.nan, (x - y).astype("d")), 0, 0
        if op == SUBD:
            bad = (x == 0) | (y == 0) | is_inv(x) | is_inv(y)
            return np.where(bad, 0, x - y).astype(T), 0, 0
        if op == FLOORDIV:
            if k == "f":
                return np.where(y != y, np.nan, np.floor(x / y)).astype(T), 0, 0
            return x // y, 0, 0  # floor; zero divisor gives 0
        if op in (MOD, REMAINDER):
            if k == "b":
                return x ^ y, 0, 0
            if k == "f":
                r = x - y * np.floor(x / y)
                return r.astype(T), 0, 8 * np.finfo(T).eps * (np.abs(x) + np.abs(y))
            return np.fmod(x, np.where(y == 0, T.type(1), y).astype(T)), 0, 0
        if op == POWER:
            if k == "f":
                return np.power(x, y), (3e-6 if T.char == "f" else 1e-13), 0
            p = np.power(x.astype("q"), np.maximum(y, 0).astype("q"))
            big = (y < 0) | ~(np.abs(np.power(x.astype("d"), y.astype("d"))) <= min(float(np.iinfo(T).max), 2.0 ** 53))
            return p.astype(T), 0, big  # the code goes through double: where that is not exact, the value is open
        if op == EQ:
            return x == y, 0, 0
        if op == NE:
            return x != y, 0, 0
        if op == LT:
            return x < y, 0, 0
        if op == GT:
            return x > y, 0, 0
        if op == LE:
            return x <= y, 0, 0
        if op == GE:
            return x >= y, 0, 0
        if op in (LAND, BAND):
            return x & y, 0, 0
        if op in (LOR, BOR):
            return x | y, 0, 0
        if op == BXOR:
            return x ^ y, 0, 0
        if op == BANDNOT:
            return x & ~y, 0, 0
        if op == BNOTAND:
            return ~x & y, 0, 0
    raise ValueError(op)


def operand(ctx, op, dt, n, which, other=None):
    if op == POWER and dt.kind in "iu":
        # results that every integer type involved can hold
        if which == 2:
            return ctx.rng.integers(0, 3 if dt.itemsize < 4 else 5, n).astype(dt)
        lim = 9 if dt.itemsize == 1 else 90
        return ctx.rng.integers(0 if dt.kind == "u" else -lim, lim, n).astype(dt)
    if op == POWER:
        return (ctx.rng.random(n) * 4 if which == 1 else ctx.rng.integers(-3, 4, n) * 0.5).astype(dt)
    if op in (SUBDT, SUBD):
        lim = 2 ** 30 if dt.itemsize == 4 else 2 ** 62
        a = ctx.rng.integers(-lim, lim, n).astype(dt)
        a[ctx.rng.random(n) < 0.1] = 0
        a[ctx.rng.random(n) < 0.1] = gen.inv(dt)
        return a
    return gen.values(ctx, dt, n)


def scalar(ctx, op, dt, small=False):
    """A Python or numpy scalar to combine with an array of dtype dt."""
    kind = ctx.pick(["pyint", "pyint", "pyfloat", "np", "pybool"] if not small else ["np1"])
    if op in (SUBDT, SUBD) or kind == "np1":
        return operand(ctx, op, dt, 1, 2)[0], "np:" + dt.char
    if op == POWER:
        return operand(ctx, op, dt, 1, 2)[0], "np:" + dt.char
    if kind == "pybool":
        return ctx.coin(), "pybool"
    if kind == "pyint":
        v = int(ctx.pick([0, 1, -1, 2, 3, 7, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65535, 65536, 2 ** 31 - 1,
                          2 ** 31, -2 ** 31, 2 ** 32 - 1, 2 ** 40, -2 ** 40]))
        return v, "pyint"
    if kind == "pyfloat":
        return float(ctx.pick([0.0, 0.5, -1.5, 3.0, 1e10, -7.0, np.nan, np.inf])), "pyfloat"
    sd = ctx.pick(gen.NUM)
    return gen.values(ctx, sd, 1, invalids=False)[0], "np:" + sd.char


def scalar_types(dt, s):
    """The common types that are acceptable for an array of dtype dt with scalar s."""
    dt = norm(dt)
    if isinstance(s, (bool, np.bool_)):
        c = {dt, promote(dt, np.dtype("b")), promote(dt, np.dtype("?"))}
    elif isinstance(s, np.generic) and not isinstance(s, np.float64):
        c = {promote(dt, s.dtype)}
    elif isinstance(s, int):
        c = {promote(dt, np.min_scalar_type(s))}
        for t in "bhiq":
            if np.iinfo(t).min <= s <= np.iinfo(t).max:
                c.add(promote(dt, np.dtype(t)))
                break
        if dt.kind == "f":
            c = {dt}
    else:
        c = {dt} if dt.kind == "f" else {np.dtype("d")}
    return c


def shape2(ctx, n):
    """A shape of n elements and more than one dimension."""
    for d in ctx.rng.permutation([2, 3, 4, 5, 7, 1]):
        if n % d == 0:
            return (int(d), n // int(d)) if ctx.coin() else (n // int(d), int(d))
    return (1, n)


def two(ctx, ops, dts):
    op = ctx.pick(ops)
    forms = ["aa", "aa", "aa", "as", "sa", "a1", "1a", "nd"]
    form = ctx.pick(forms)
    if op in (SUBDT, SUBD):
        dts = [np.dtype("i"), np.dtype("q"), np.dtype("l")]
    elif op == REMAINDER:
        dts = gen.FLOATS + [LD]
    elif op in (LAND, LOR):
        dts = [gen.BOOL]
    elif op in (BAND, BOR, BXOR, BANDNOT, BNOTAND):
        dts = [d for d in dts if d.kind in "biu"]
    d1 = ctx.pick(dts)
    d2 = d1 if ctx.coin(0.65) or op in (SUBDT, SUBD) else ctx.pick(dts)
    if 401 <= op <= 406 and ctx.coin(0.12):
        d1, d2 = np.dtype(ctx.pick("lLqQ")), np.dtype(ctx.pick("lLqQ"))
    n = gen.length(ctx)
    tm = gen.threads(ctx, rc)
    nm = NAMES[op]
    lay1 = lay2 = "c"
    mode = None

    def fixdiv(y):
        return y

    if form in ("aa", "nd"):
        x, y = operand(ctx, op, d1, n, 1), operand(ctx, op, d2, n, 2)
        if form == "aa":
            xa, lay1 = gen.layout(ctx, x)
            ya, lay2 = gen.layout(ctx, y)
        else:
            sh = shape2(ctx, max(n, 1))
            if n == 0:
                x, y = x.reshape(0, 3), y.reshape(0, 3)
            else:
                x, y = x.reshape(sh), y.reshape(sh)
            xa, lay1 = ndlay(ctx, x)
            ya, lay2 = ndlay(ctx, y)
        Ts = {promote(d1, d2)}
        sdesc = ""
    else:
        n = max(n, 2)
        x = operand(ctx, op, d1, n, 1)
        xa, lay1 = gen.layout(ctx, x)
        if form in ("as", "sa"):
            s, sdesc = scalar(ctx, op, d1, small=False)
            Ts = scalar_types(d1, s)
            y, ya = s, s
        else:
            y = operand(ctx, op, d2, 1, 2)
            y[is_inv(y)] = 3  # a one-element array is taken as a number
            ya, sdesc = y.copy(), "arr1:" + d2.char
            Ts = {promote(d1, d2)}
        if form in ("sa", "1a"):
            x, y, xa, ya = y, x, ya, xa
    before = [np.array(v, copy=True) if isinstance(v, np.ndarray) else None for v in (xa, ya)]
    # output
    out = None
    omode = "new"
    if ctx.coin(0.4) and form != "nd" and len(Ts) == 1:
        T = next(iter(Ts))
        arr = xa if isinstance(xa, np.ndarray) and xa.size >= n else ya
        od = gen.BOOL if 401 <= op <= 409 else (np.dtype("f") if op == DIV and T.char == "f" else np.dtype("d")) if op in (DIV, SUBDT) else T
        safe = form in ("aa", "a1", "1a") or Ts == {norm(arr.dtype)}
        if safe:
            omode = ctx.pick(["out", "outlong", "inplace", "inplace"])
            if omode == "inplace":
                if norm(arr.dtype) == od and arr.flags.aligned and arr.size == n:
                    out = arr
                else:
                    omode = "out"
            if omode != "inplace":
                out = gen.values(ctx, od, n + (5 if omode == "outlong" else 0))
                if omode == "out":
                    out = gen.lay(ctx, out, ctx.pick(["c", "off"]))
            mode = out.copy()
            owner = out if out.base is None else out.base
            if owner.dtype == object or not owner.flags.writeable:
                owner = out
            around = owner.view(np.uint8).copy() if owner.flags.contiguous else None
    args = (xa, ya) if out is None else (xa, ya, out)
    r = rc.BasicMathTwoInputs(args, op, 0)
    sig = (nm, form, np.dtype(d1).char, np.dtype(d2).char if not sdesc or sdesc[:4] == "arr1" else sdesc, lay1, lay2, omode,
           "L" if n > 32768 else n if n < 80 else "M", tm)
    ctx.sig(*sig)
    det = f"{nm} {form} {d1} {d2 if not sdesc else sdesc} n={n} layouts {lay1},{lay2} out={omode} {tm}"
    if sdesc and form in ("as", "sa"):
        det += f" scalar={(y if form == 'as' else x)!r}"
    if form in ("a1", "1a"):
        det += f" value={(y if form == 'a1' else x)[0]!r}"
    if out is not None and around is not None:
        # bytes of the buffer that are not part of the output
        now = owner.view(np.uint8).reshape(-1)
        m = np.ones(len(now), bool)
        start = out.__array_interface__["data"][0] - owner.__array_interface__["data"][0]
        it, st = out.itemsize, out.strides[0] if len(out) > 1 else out.itemsize
        if st == it:
            m[start:start + len(out) * it] = False
            ctx.check(bool((now == around.reshape(-1))[m].all()), f"{nm}:overrun", lambda: f"bytes next to the output changed; {det}")
    # operands untouched
    for v, b, w in ((xa, before[0], "first"), (ya, before[1], "second")):
        if b is not None and v is not out:
            ctx.check(bool(gen.same(v, b).all()), f"{nm}:input-changed", lambda: f"{w} operand changed; {det}")
    if r is None:
        ctx.seen("punted")
        if out is not None:
            ctx.check(bool(gen.same(out, mode).all()), f"{nm}:punt-wrote", lambda: f"output changed though the call punted; {det}")
        return
    ctx.seen("computed:" + nm)
    # the common type
    if op in (DIV, SUBDT) or 401 <= op <= 409:
        cands = [t for t in Ts if op != DIV or t == LD or (t.char == "f") == (norm(r.dtype).char == "f")] or list(Ts)
    else:
        ctx.check(norm(r.dtype) in Ts, f"{nm}:dtype", lambda: f"result dtype {r.dtype}, expected one of {sorted(map(str, Ts))}; {det}")
        cands = [norm(r.dtype)]

    def both_int(a, b):
        return np.asarray(a).dtype.kind in "iu" and np.asarray(b).dtype.kind in "iu"

    def reference(T):
        def conv(v):
            if isinstance(v, np.ndarray):
                if 401 <= op <= 406 and v.dtype.kind in "iu" and T.kind == "f" and both_int(x, y):
                    return v  # signed against unsigned 64: numpy compares exactly
                return convert(v, T)
            return np.array([v]).astype(T)[0] if T.kind != "b" else np.bool_(v)
        with np.errstate(all="ignore"):
            return apply(op, np.asarray(conv(x)), np.asarray(conv(y)), T)
    got = r
    if omode == "outlong" and got.size > n:
        ctx.check(bool(gen.same(got[n:], mode[n:]).all()), f"{nm}:out-tail", lambda: f"elements past the end changed; {det}")
        got = got[:n]
    for T in sorted(cands, key=lambda t: (t.itemsize, t.char)):
        exp, rtol, atol = reference(T)
        exp = np.asarray(exp)
        if exp.shape == got.shape and bool(gen.same(got, exp).all()):
            break
    if 401 <= op <= 406 and exp.shape == got.shape and T.kind == "f" and both_int(x, y):
        # an unsigned 64-bit operand against a signed one may go through double, where an invalid compares as a NaN
        m = np.zeros(exp.shape, bool)
        for v in (x, y):
            if isinstance(v, np.ndarray):
                m |= is_inv(v)
        exp = np.where(m, got, exp)
    if isinstance(atol, np.ndarray) and atol.dtype == bool:
        if exp.shape == got.shape:
            exp = np.where(atol, got, exp).astype(exp.dtype)
        atol = 0
    if out is not None and r.base is out or r is out:
        ctx.seen("out-used")
    if 401 <= op <= 409:
        exp = exp.astype(bool)
    ok_extra = None
    if isinstance(atol, np.ndarray):
        with np.errstate(all="ignore"):
            fuzzy = ~np.isfinite(exp) | (np.abs(exp) > 1e300) if exp.dtype.char != "f" else ~np.isfinite(exp) | (np.abs(exp) > 1e30)
        # a quotient that rounds across an integer moves the remainder by one divisor
        e2 = np.where(fuzzy, got, exp) if got.shape == exp.shape else exp
        big = atol + 0
        m = got == got if got.shape == exp.shape else None
        if got.shape == exp.shape:
            with np.errstate(all="ignore"):
                near = np.abs(got - e2) <= big
            e2 = np.where(near | fuzzy, got, e2)
        gen.expect(ctx, nm, got, e2.astype(got.dtype) if exp.dtype == got.dtype else exp, det)
    else:
        gen.expect(ctx, nm, got, exp, det, rtol=rtol)
    ctx.sample(det)


def ndlay(ctx, a):
    k = ctx.pick(["C", "F", "F", "Fstep", "Cstep", "Frev", "Crev", "T"])
    if a.size == 0:
        k = "C"
    if k == "C":
        return np.ascontiguousarray(a), k
    if k == "F":
        return np.asfortranarray(a), k
    if k == "T":
        return np.ascontiguousarray(a.T).T, k
    s, r = a.shape
    if k == "Fstep":
        b = np.zeros((s, r * 2), a.dtype, order="F")[:, ::2]
    elif k == "Cstep":
        b = np.zeros((s * 2, r), a.dtype)[::2]
    elif k == "Frev":
        b = np.zeros((s, r), a.dtype, order="F")[:, ::-1]
    else:
        b = np.zeros((s, r), a.dtype)[:, ::-1]
    b[...] = a
    return b, k
