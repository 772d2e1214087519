import re
import datetime
import warnings

import numpy as np
import riptide_cpp as rc

import gen

PROPERTY = "C19"
FLAVOURS = {"quick": {"rel": 90000, "asan": 15000}, "thorough": {"rel": 1500000, "asan": 250000}}
RULE = ("One case writes instants (any day of 1900 to 2140, any nanosecond, some fields out of range) as byte or unicode strings in the accepted forms, of "
        "mixed lengths within one array, in one of the layouts, and parses them with the date, time, date-time or strptime function; a separate "
        "calendar gives the expected nanoseconds. Malformed strings must give a warning and no crash. A signature is (function, kind, form, width, layout, length class).")
ASSUMPTIONS = ["years outside 1970..2099 and days that do not exist give 0; a time out of range after a good date leaves the date at midnight",
               "strptime is checked for formats without zone, week or day-of-year conversions; text after the end of the format is ignored there",
               "what a malformed string parses to is left open"]

EPOCH = datetime.date(1970, 1, 1).toordinal()
NS = 10**9
DAY = 86400 * NS
LAYS = ("c", "c", "off", "mis", "step", "neg", "ro")
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def cls(n):
    return "0" if n == 0 else "1" if n == 1 else "<300" if n < 300 else "big"


def date_ns(y, m, d):
    """Nanoseconds of the day, None when it is not a day the parser covers."""
    if not 1970 <= y <= 2099:
        return None
    try:
        return (datetime.date(y, m, d).toordinal() - EPOCH) * DAY
    except ValueError:
        return None


def pickdate(c):
    r = c.rng
    k = r.random()
    if k < 0.6:
        d = datetime.date.fromordinal(int(r.integers(EPOCH, EPOCH + 47482)))
        return d.year, d.month, d.day
    if k < 0.8:  # around the ends of months, of years and of the range
        y = int(c.pick([1970, 1971, 1972, 1999, 2000, 2001, 2004, 2096, 2099, 2023, 2024, 1969, 2100]))
        m = int(r.integers(1, 13))
        return y, m, int(c.pick([1, 28, 29, 30, 31]))
    if k < 0.9:
        d = datetime.date.fromordinal(int(r.integers(datetime.date(1900, 1, 1).toordinal(), datetime.date(2140, 1, 1).toordinal())))
        return d.year, d.month, d.day
    return int(r.integers(0, 10000)), int(r.integers(0, 100)), int(r.integers(0, 100))


def picktime(c):
    """hour, minute, second and whether they make a time"""
    r = c.rng
    if c.coin(0.85):
        return int(r.integers(0, 24)), int(r.integers(0, 60)), int(r.integers(0, 60)), True
    t = [int(c.pick([0, 23, 24, 99])), int(c.pick([0, 59, 60, 99])), int(c.pick([0, 59, 60, 61, 99]))]
    return t[0], t[1], t[2], t[0] < 24 and t[1] < 60 and t[2] < 60


def frac(c):
    """Digits after the point and their nanoseconds."""
    if c.coin(0.5):
        return "", 0
    p = int(c.rng.integers(1, 10)) if c.coin(0.9) else int(c.rng.integers(10, 16))
    d = "".join(str(x) for x in c.rng.integers(0, 10, p))
    if c.coin(0.1):
        d = c.pick(["0", "9"]) * p
    return "." + d, int(d[:9].ljust(9, "0"))


def write_date(c, y, m, d, form):
    if form == "compact":
        return f"{y:04d}{m:02d}{d:02d}"
    if form == "dashed":
        return f"{y:04d}-{m:02d}-{d:02d}"
    return f"{y:04d}-{m}-{d}"


def write_time(c, h, mi, s, form):
    """Text, its nanoseconds if the fields are in range."""
    if form == "hm":
        return f"{h:02d}:{mi:02d}", (h * 3600 + mi * 60) * NS, h < 24 and mi < 60
    if form == "short":
        return f"{h}:{mi}:{s}", (h * 3600 + mi * 60 + s) * NS, h < 24 and mi < 60 and s < 60
    f, ns = frac(c) if form == "frac" else ("", 0)
    return f"{h:02d}:{mi:02d}:{s:02d}{f}", (h * 3600 + mi * 60 + s) * NS + ns, h < 24 and mi < 60 and s < 60


def make(c, what):
    """One well-formed string and the instant it means."""
    if c.coin(0.03):
        return c.pick(["", " ", "\t", "   "]), 0
    lead = c.pick([" ", "  ", "\t", "\n"]) if c.coin(0.1) else ""
    tail = ""
    if what == "time":
        h, mi, s, _ = picktime(c)
        t, ns, ok = write_time(c, h, mi, s, c.pick(["hm", "hms", "frac", "frac", "short"]))
        if t.count(":") == 2 and c.coin(0.1):
            tail = c.pick([" ", "  ", "\t"])
        if c.coin(0.02):
            return lead + str(int(c.rng.integers(0, 24))), 0  # an hour alone is not a time
        return lead + t + tail, ns if ok else 0
    y, m, d = pickdate(c)
    ds = write_date(c, y, m, d, c.pick(["compact", "dashed", "dashed", "loose"]))
    ns = date_ns(y, m, d)
    if what == "date":
        if c.coin(0.1):
            tail = c.pick([" ", "  ", "\t"])
        return lead + ds + tail, ns or 0
    if c.coin(0.15):
        if c.coin(0.2):
            tail = c.pick(["T", " "])
        return lead + ds + tail, ns or 0
    h, mi, s, _ = picktime(c)
    if c.coin(0.05):
        return f"{lead}{ds}{c.pick('T ')}{h:02d}", 0 if ns is None else ns + (h * 3600 * NS if h < 24 else 0)
    t, tn, ok = write_time(c, h, mi, s, c.pick(["hm", "hms", "frac", "frac", "short"]))
    if t.count(":") == 2 and c.coin(0.1):
        tail = c.pick([" ", "  ", "\t"])
    return lead + ds + c.pick("TT ") + t + tail, 0 if ns is None else ns + (tn if ok else 0)


FN = {w: (lambda a, f=f: getattr(rc, f)(a)) for w, f in (("date", "DateStringToNanos"), ("time", "TimeStringToNanos"), ("datetime", "DateTimeStringToNanos"))}


def array(c, texts, kind):
    w = max([len(t) for t in texts] + [1]) + (int(c.rng.integers(0, 8)) if c.coin(0.5) else 0)
    if kind == "S":
        a = np.array([t.encode("latin1", "replace") for t in texts], f"S{w}")
    else:
        a = np.array(texts, f"U{w}")
    if kind == "U" and c.coin(0.1):
        return a.astype(a.dtype.newbyteorder(">")), "swapped"
    return gen.layout(c, a, LAYS)


def run(fn, *args):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        return fn(*args), [x for x in w if issubclass(x.category, RuntimeWarning)]


def howmany(c):
    return int(c.pick([0, 1, 1, 1, 2, 3, 8, 20, 64])) if c.coin(0.97) else int(c.rng.integers(100, 400))


def parse(c):
    what = c.pick(["date", "time", "datetime", "datetime"])
    kind = c.pick("SU")
    n = howmany(c)
    rows = [make(c, what) for _ in range(n)]
    texts = [t for t, _ in rows]
    a, l = array(c, texts, kind)
    if n and n % 2 == 0 and l == "c" and c.coin(0.2):
        a = a.reshape(2, -1)
        l = "2d"
        if c.coin(0.5):
            a, l = np.asfortranarray(a), "2dF"
    c.sig("parse", what, kind, a.dtype.itemsize // (4 if kind == "U" else 1), cls(n), l)
    c.sample(f"{what} {a.dtype} {texts[:2]}")
    got, warned = run(FN[what], a)
    exp = np.array([v for _, v in rows], np.int64)
    gen.expect(c, what, got, exp, lambda: f"{a.dtype} {l}: " + next((repr(t) for t, g, e in zip(texts, got, exp) if g != e), ""))
    long = any(re.search(r"\.\d{10}", x) for x in texts)  # digits after the ninth are ignored with a warning
    c.check(not warned or long, what + ":warning", lambda: f"a warning for well-formed strings: {warned[0].message} of {texts[:3]}")


STRP = {  # format piece: writer
    "Y": lambda f: f"{f['y']:04d}", "m": lambda f: f"{f['m']:02d}", "d": lambda f: f"{f['d']:02d}", "e": lambda f: f"{f['d']}",
    "H": lambda f: f"{f['h']:02d}", "M": lambda f: f"{f['mi']:02d}", "S": lambda f: f"{f['s']:02d}", "y": lambda f: f"{f['y'] % 100:02d}",
    "B": lambda f: MONTHS[f["m"] - 1], "b": lambda f: MONTHS[f["m"] - 1][:3], "h": lambda f: MONTHS[f["m"] - 1][:3].upper(),
    "k": lambda f: f"{f['h']}", "I": lambda f: f"{(f['h'] + 11) % 12 + 1:02d}", "p": lambda f: "PM" if f["h"] > 11 else "AM",
    "D": lambda f: f"{f['m']:02d}/{f['d']:02d}/{f['y'] % 100:02d}", "F": lambda f: f"{f['y']:04d}-{f['m']:02d}-{f['d']:02d}",
    "T": lambda f: f"{f['h']:02d}:{f['mi']:02d}:{f['s']:02d}", "R": lambda f: f"{f['h']:02d}:{f['mi']:02d}",
    "r": lambda f: f"{(f['h'] + 11) % 12 + 1:02d}:{f['mi']:02d}:{f['s']:02d} {'PM' if f['h'] > 11 else 'AM'}",
    "X": lambda f: f"{f['h']:02d}:{f['mi']:02d}:{f['s']:02d}", "x": lambda f: f"{f['m']:02d}/{f['d']:02d}/{f['y'] % 100:02d}",
    "C": lambda f: f"{f['y'] // 100:02d}", "n": lambda f: "  ", "t": lambda f: "\t", "%": lambda f: "%",
    "A": lambda f: datetime.date(f["y"], f["m"], f["d"]).strftime("%A"), "a": lambda f: datetime.date(f["y"], f["m"], f["d"]).strftime("%a"),
}
DATES = ["%Y-%m-%d", "%Y%m%d", "%d/%m/%Y", "%F", "%D", "%x", "%m.%d.%y", "%d %B %Y", "%b %e, %Y", "%h%d%Y", "%A %d %b %Y", "%a, %F", "%C%y-%m-%d", "%%%Y%%%m%%%d", "%Y%n%m%t%d"]
TIMES = ["", " %H:%M:%S", "T%T", " %X", " %R", " %I:%M:%S %p", " %r", "-%H%M%S", " %k:%M", " %H", " %I%p"]


def strp(c):
    kind = c.pick("SU")
    df, tf = c.pick(DATES), c.pick(TIMES)
    fmt = df + tf
    two = "y" in df.replace("%%", "") and "C" not in df or "D" in df or "x" in df
    n = howmany(c)
    texts, exp = [], []
    for _ in range(n):
        while True:
            y, m, d = pickdate(c)
            try:
                datetime.date(y, m, d)
            except ValueError:
                if not c.coin(0.1) or not (1 <= m <= 12 and 1 <= d <= 31) or "%a" in df.lower():
                    continue
            if not two or 1969 <= y <= 2068:
                break
        f = dict(y=y, m=m, d=d, h=int(c.rng.integers(0, 24)), mi=int(c.rng.integers(0, 60)), s=int(c.rng.integers(0, 60)))
        t, i = "", 0
        while i < len(fmt):
            if fmt[i] == "%":
                t += STRP[fmt[i + 1]](f)
                i += 2
            else:
                t += fmt[i]
                i += 1
        used = {"": 0}.get(tf, None)
        if used is None:
            used = f["h"] * 3600
            if "M" in tf or any(x in tf for x in ("%T", "%X", "%R", "%r")):
                used += f["mi"] * 60
            if "S" in tf or any(x in tf for x in ("%T", "%X", "%r")):
                used += f["s"]
        ns = date_ns(y, m, d)
        fr, fn = frac(c) if c.coin(0.3) else ("", 0)
        bad = c.coin(0.06)
        if bad:  # breaks the format at its start
            t, fr, ns = c.pick(["x", "~", "?"]) + t, "", None
            if fmt[0] == "%" and fmt[1] == "%":
                t = "x" + t[1:]
        texts.append(t + fr)
        exp.append(0 if ns is None else ns + used * NS + fn)
    a, l = array(c, texts, kind)
    c.sig("strptime", fmt, kind, cls(n), l)
    c.sample(f"strptime {fmt!r} {a.dtype} {texts[:2]}")
    got, _ = run(rc.StrptimeToNanos, a, fmt.encode())
    gen.expect(c, "strptime", got, np.array(exp, np.int64), lambda: f"format {fmt!r}, {a.dtype} {l}: "
               + next((repr(t) for t, g, e in zip(texts, got, exp) if g != e), ""))


def hostile(c):
    """Strings that are not dates: a warning or an invalid result, no crash, and no change to the rows that are dates."""
    kind = c.pick("SU")
    what = c.pick(["date", "time", "datetime", "strptime"])
    n = int(c.pick([1, 2, 5, 20]))
    alpha = "0123456789-:T. /xAP%\t\n\x7f\xe9" + ("\u0130\u0661\U0001f600\U0010ffff" if kind == "U" else "\x80\xff")
    texts, good = [], {}
    for i in range(n):
        if what != "strptime" and c.coin(0.4):
            t, good[i] = make(c, what)
        elif c.coin(0.5) and what != "strptime":
            t = list(make(c, what)[0]) or ["x"]
            for _ in range(int(c.rng.integers(1, 4))):
                t[int(c.rng.integers(0, len(t)))] = alpha[int(c.rng.integers(0, len(alpha)))]
            t = "".join(t)
        else:
            t = "".join(alpha[int(x)] for x in c.rng.integers(0, len(alpha), int(c.rng.integers(0, 30))))
        texts.append(t)
    a, l = array(c, texts, kind)
    c.sig("hostile", what, kind, cls(n), l, a.dtype.itemsize)
    c.sample(f"hostile {what} {texts[:2]}")
    if what == "strptime":
        fmt = c.pick(["%Y-%m-%d", "%G%G%G%G%G%G", "%", "%E", "%EY", "%Od", "%Q", "%Y%z", "%Y%Z", "%j %Y", "%U%W%V%u%w", "%c", "", "%p%I", "%s", "%9"]) + c.pick(["", "%H", "%z"])
        got, _ = run(rc.StrptimeToNanos, a, fmt.encode())
        c.check(isinstance(got, np.ndarray) and got.shape == (n,) and bool((got >= 0).all()), "hostile:strptime", lambda: f"{fmt!r} gave {got}")
        return
    got, _ = run(FN[what], a)
    c.check(isinstance(got, np.ndarray) and got.shape == (n,) and got.dtype == np.int64 and bool((got >= 0).all()), "hostile:range", lambda: f"{texts} gave {got}")
    for i, e in good.items():
        c.check(int(got[i]) == e, "hostile:neighbour", lambda: f"{texts[i]!r} gave {got[i]} instead of {e} among {texts}")
    junk = f"{c.pick(['huh ', 'x', '#'])}{make(c, what)[0].strip()} junk"
    a, l = array(c, [junk], kind)
    got, warned = run(FN[what], a)
    c.check(bool(warned), "hostile:silent", lambda: f"no warning for {junk!r}")
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        try:
            FN[what](a)
        except RuntimeWarning:
            return
    c.fail("hostile:raise", f"a warning that is an error was lost for {junk!r}")


def wrong(c):
    a = gen.values(c, c.pick(gen.NUM), 3)
    for f in [lambda: rc.DateStringToNanos(a), lambda: rc.TimeStringToNanos(a), lambda: rc.DateTimeStringToNanos(a), lambda: rc.StrptimeToNanos(a, b"%Y"),
              lambda: rc.StrptimeToNanos(a.astype("S"), 5), lambda: rc.DateStringToNanos("20200101"), lambda: rc.DateStringToNanos()]:
        try:
            r = f()
        except (ValueError, TypeError):
            continue
        c.fail("accepted", f"gave {r!r}")
    c.sig("wrong", a.dtype.char)


FAMILIES = [("parse", 10, parse), ("strptime", 6, strp), ("hostile", 4, hostile), ("wrong", 0.3, wrong)]
