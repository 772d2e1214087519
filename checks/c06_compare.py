import twoinputs as t2
import gen

PROPERTY = "C06"
FLAVOURS = {"quick": {"rel": 80000, "asan": 10000}, "thorough": {"rel": 400000, "asan": 50000}}
RULE = ("One case draws a comparison or bit operation, two dtypes, operand forms, layouts, a length around the vector and thread-chunk "
        "thresholds, an output mode and a threading mode, and compares every element with a numpy reference. A signature is "
        "(operation, form, dtypes, layouts, output mode, length class, threading mode).")
ASSUMPTIONS = ["numpy comparisons are the reference"]
CMP = [t2.EQ, t2.NE, t2.LT, t2.GT, t2.LE, t2.GE]
BIT = [t2.BAND, t2.BOR, t2.BXOR, t2.BANDNOT, t2.BNOTAND, t2.LAND, t2.LOR]
FAMILIES = [
    ("compare", 3, lambda c: t2.two(c, CMP, gen.NUMX)),
    ("bits", 2, lambda c: t2.two(c, BIT, gen.NUMX)),
]
