import numpy as np
import riptide_cpp as rc

import twoinputs as t2
import gen

PROPERTY = "C05"
FLAVOURS = {"quick": {"rel": 60000, "asan": 9000}, "thorough": {"rel": 500000, "asan": 60000}}
RULE = ("One case draws an operation, two dtypes, operand forms (array, scalar, one-element array, 2-d), memory layouts, a length around "
        "the vector and thread-chunk thresholds, an output mode and a threading mode, calls the real module and compares every element with a "
        "numpy reference. A signature is (operation, form, dtypes, layouts, output mode, length class, threading mode).")
ASSUMPTIONS = ["numpy arithmetic is the reference", "integer modulo is the C remainder; integer power is checked where the result fits"]
OPS = [t2.ADD, t2.SUB, t2.MUL, t2.DIV, t2.FLOORDIV, t2.MOD, t2.MIN, t2.MAX]
OPS2 = [t2.POWER, t2.REMAINDER, t2.SUBDT, t2.SUBD]
DT = gen.NUMX + [t2.LD]


def concat(c):
    """Adding fixed-width string arrays joins them element by element."""
    kind = c.pick("SU")
    n = max(gen.length(c), 2)
    form = c.pick(["aa", "aa", "as", "sa", "a1", "1a"])
    tm = gen.threads(c, rc)
    x = gen.strings(c, kind, n)
    y = gen.strings(c, kind, n if form == "aa" else 1)
    xa, l1 = gen.layout(c, x)
    ya, l2 = gen.layout(c, y) if form == "aa" else (y.copy(), "c")
    if form in ("as", "sa"):
        ya = y[0] if c.coin() else y[0].item()
    if form in ("sa", "1a"):
        x, y, xa, ya = y, x, ya, xa
    keep = [np.array(v, copy=True) for v in (xa, ya)]
    r = rc.BasicMathTwoInputs((xa, ya), t2.ADD, 0)
    det = f"concat {form} {x.dtype} {y.dtype} n={n} layouts {l1},{l2} {tm}"
    c.sig("concat", form, str(x.dtype), str(y.dtype), l1, l2, n if n < 80 else "M", tm)
    c.check(all(bool((np.asarray(v) == k).all()) for v, k in zip((xa, ya), keep)), "concat:input-changed", lambda: det)
    if r is None:
        c.seen("punted")
        return
    c.seen("computed:concat")
    exp = np.char.add(x, y)
    c.check(r.dtype.kind == kind and r.shape == exp.shape, "concat:shape", lambda: f"got {r.dtype} {r.shape}; {det}")
    bad = np.flatnonzero(r != exp)
    c.check(not len(bad), "concat:value", lambda: f"{len(bad)} of {n} differ, first at {bad[0]}: got {r[bad[0]]!r}, expected {exp[bad[0]]!r}; {det}")


FAMILIES = [
    ("concat", 0.3, concat),
    ("arith", 3, lambda c: t2.two(c, OPS, DT)),
    ("arith2", 1, lambda c: t2.two(c, OPS2, gen.NUM + [t2.LD])),
]
