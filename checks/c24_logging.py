import ctypes
import logging
import os
import re
import threading
import time

import riptide_cpp as rc

PROPERTY = "C24"
DRIVER = "logs.cpp"
FLAVOURS = {"quick": {"rel": 2400, "tsan": 900, "asan": 300}, "thorough": {"rel": 12000, "tsan": 3000, "asan": 2000}}
SHARDS = {"rel": 2, "tsan": 3, "asan": 1}
RULE = ("One case runs producers on the logging service (own instance, or the module's own with Python handlers on its loggers) against a schedule of "
        "enabling and disabling, with delays in the producers and the handler, and an offline checker compares the delivered log with the "
        "log of what was sent: every message logged entirely inside an enabled period once, nothing twice, nothing below the level, per-producer order, "
        "unchanged content. A signature is (family, producers, messages class, batch, interval, delays, cycles).")
ASSUMPTIONS = ["a message whose log call overlaps enabling or disabling may be delivered or not, but at most once",
               "a disable with a time limit may drop what is still queued, and a full queue drops new messages, as documented in the code"]


class P(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int32) for k in ("producers", "messages", "batch", "interval", "maxsize", "slow", "delay", "mode", "cycles", "timeout")] + \
               [("seed", ctypes.c_uint32), ("minlevel", ctypes.c_int32), ("flip", ctypes.c_int32)]


class R(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int64) for k in ("sent", "must", "delivered", "twice", "missing", "forbidden", "order", "content", "first",
                                              "slowest_disable_us", "epochs", "leftover")]


L = None
LEVELS = [10, 20, 30, 40, 50]


def worker_init(spec):
    global L
    L = ctypes.CDLL(os.environ["VP_DRIVER"])
    L.vp_log_mix.restype = ctypes.c_uint32
    L.vp_log_mix.argtypes = [ctypes.c_uint32, ctypes.c_uint64]
    L.vp_log_registry.restype = ctypes.c_int64
    L.vp_log_module.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_uint32, ctypes.c_int, ctypes.c_int]


def run(c, **kw):
    small = c.flavour != "rel"
    p = P(producers=int(c.pick([1, 2, 3, 4, 8] if small else [1, 2, 4, 8, 16])), messages=int(c.pick([1, 10, 100, 300] if small else [1, 20, 200, 1500])),
          batch=int(c.pick([1, 2, 7, 50, 500])), interval=int(c.pick([1, 2, 10, 100, 1000, 3600000])), maxsize=1000000, slow=int(c.pick([0, 0, 1, 3])),
          delay=int(c.pick([0, 0, 1, 2])), mode=0, cycles=0, timeout=-1, seed=int(c.rng.integers(0, 2 ** 31)),
          minlevel=int(c.pick([0, 0, 10, 20, 30, 50, 60])), flip=0)
    for k, v in kw.items():
        setattr(p, k, v)
    r = R()
    c.sig(p.producers, p.messages, p.batch, p.interval, p.slow, p.delay, p.cycles, p.timeout, p.minlevel, p.flip)
    L.vp_log_service(ctypes.byref(p), ctypes.byref(r))
    d = lambda: " ".join(f"{k}={getattr(p, k)}" for k, _ in P._fields_) + f" -> sent {r.sent}, delivered {r.delivered}, required {r.must}"  # noqa: E731
    c.sample(d())
    c.seen("sent", r.sent)
    c.seen("delivered", r.delivered)
    c.seen("required", r.must)
    c.seen("delivered-late-by-the-next-handler", r.leftover)
    c.check(not r.twice, "twice", lambda: f"{r.twice} messages delivered more than once; {d()}")
    c.check(not r.content, "content", lambda: f"{r.content} messages changed; {d()}")
    c.check(not r.order, "order", lambda: f"{r.order} messages out of their producer's order; {d()}")
    c.check(not r.forbidden, "forbidden", lambda: f"{r.forbidden} messages below the level or past a full queue; {d()}")
    # a limit that did not run out drops nothing
    if p.timeout < 0 or r.slowest_disable_us < p.timeout * 900:
        c.seen("limit-not-reached", int(p.timeout >= 0))
        c.check(not r.missing, "missing", lambda: f"{r.missing} messages lost, first producer {r.first // 1000000} message {r.first % 1000000}; {d()}")
    # the worst legitimate delay is one slow batch
    c.check(r.slowest_disable_us < 20e6, "slow", lambda: f"disable took {r.slowest_disable_us} us; {d()}")
    return p, r


def plain(c):
    run(c)


def cycles(c):
    p, r = run(c, mode=1, cycles=int(c.pick([1, 3, 10, 40])), delay=int(c.pick([1, 2, 3])))
    c.seen("enabled-periods", r.epochs // 2)


def timed(c):
    run(c, timeout=int(c.pick([0, 1, 5, 50, 5000, 100000, 100000])), slow=3)


def full(c):
    k = int(c.pick([1, 2, 10, 50, 51, 100]))
    run(c, mode=2, producers=1, maxsize=k, messages=int(k + c.rng.integers(-k, 100) + 1), minlevel=0)


def levels(c):
    a, b = int(c.pick([10, 20, 30])), int(c.pick([20, 30, 40, 50]))
    run(c, minlevel=a, flip=b if b != a else 40)


def registry(c):
    n, t = int(c.pick([1, 5, 40])), int(c.pick([2, 4, 8]))
    c.sig(n, t)
    bad = L.vp_log_registry(t, n, int(c.rng.integers(0, 2 ** 20)))
    c.check(not bad, "registry", lambda: f"{bad} of {n} loggers differ between {t} threads")


class Sink(logging.Handler):
    def __init__(self, raises, slow):
        super().__init__(0)
        self.got, self.raises, self.slow, self.n = [], raises, slow, 0

    def handle(self, record):
        self.n += 1
        if self.slow and self.n % 5 == 0:
            time.sleep(self.slow * 1e-4)
        self.got.append((record.name, record.levelno, record.getMessage(), record.timestamp, record.source_info))
        if self.raises and self.n % self.raises == 0:
            raise RuntimeError("handler")


def python(c):
    """The module's own service and handler thread, with Python handlers."""
    names = [n for n in rc.GetRiptideLoggers() if "vp" not in n]
    c.check(set(names) >= {"riptable.riptide_cpp.SDSFile", "riptable.riptide_cpp.GroupBy"}, "names", lambda: str(names))
    full = c.pick(names)
    short = full[len("riptable.riptide_cpp"):].lstrip(".")
    py = logging.getLogger(full)
    level = int(c.pick([10, 10, 20, 40]))
    raises, slow = int(c.pick([0, 0, 2, 3])), int(c.pick([0, 0, 1]))
    batch, interval = int(c.pick([1, 3, 50])), int(c.pick([1, 5, 1000, 600000]))
    producers, messages = int(c.pick([1, 2, 4])), int(c.pick([1, 20, 150]))
    h = Sink(raises, slow)
    py.setLevel(level)
    py.propagate = False
    py.addHandler(h)
    rounds = int(c.pick([1, 1, 2, 4]))
    d = lambda: f"{full} level {level} raises {raises} slow {slow} batch {batch} interval {interval} {producers}x{messages} rounds {rounds}"  # noqa: E731
    c.sig(short, level, raises, slow, batch, interval, producers, messages, rounds)
    unraisable = []
    hook = __import__("sys").unraisablehook
    __import__("sys").unraisablehook = lambda a: unraisable.append(a.exc_type)
    try:
        for k in range(rounds):
            h.got.clear()
            seed = int(c.rng.integers(0, 2 ** 31))
            t0 = time.time_ns()
            failures = []
            rc.EnableLogging(interval, batch, 100000, (lambda: (lambda msg: failures.append(msg)))() if c.coin() else None)
            if c.coin(0.3):
                rc.EnableLogging(interval, batch, 100000, None)
            t = threading.Thread(target=L.vp_log_module, args=(short.encode(), producers, messages, seed, int(c.pick([0, 1])), 0))
            t.start()
            junk = [bytes(200) for _ in range(100)]
            t.join()
            rc.DisableLogging(-1 if c.coin(0.8) else 30000)
            if c.coin(0.3):
                rc.DisableLogging(-1)
            t1 = time.time_ns()
            del junk
            got = h.got
            c.seen("python-records", len(got))
            want = {}
            for p in range(producers):
                want[p] = []
                for i in range(messages):
                    hh = L.vp_log_mix(seed + p * 101 & 0xffffffff, i)
                    lv = LEVELS[(hh >> 3) % 5]
                    if lv >= level:
                        tail = b" \xc3\xa9\xff%s{}\xe2".decode("utf8", "replace") if hh % 7 == 0 else ""
                        want[p].append((lv, f"{p} {i} {(hh >> 9) % 1000}{tail}"))
            have = {p: [] for p in range(producers)}
            for name, lv, msg, ts, src in got:
                c.check(name == full, "python:name", lambda: f"{name}; {d()}")
                c.check(isinstance(ts, int) and t0 - 10 ** 9 <= ts <= t1 + 10 ** 9, "python:timestamp", lambda: f"timestamp {ts}, logged between {t0} and {t1}; {d()}")
                c.check(isinstance(src, dict) and src.get("filename", "").endswith("logs.cpp") and src.get("line", 0) > 0, "python:source", lambda: f"{src}; {d()}")
                q = msg.split()
                if len(q) in (3, 4) and q[0].isdigit() and int(q[0]) in have:
                    have[int(q[0])].append((lv, msg))
                else:
                    c.seen("module-own-messages")
            for p in range(producers):
                c.check(have[p] == want[p], "python:log", lambda: f"producer {p}: {len(have[p])} of {len(want[p])} delivered, round {k}, first difference "
                        f"{next(((x, y) for x, y in zip(have[p], want[p]) if x != y), 'length')}; {d()}")
    finally:
        py.removeHandler(h)
        __import__("sys").unraisablehook = hook


def refuse(c):
    """Parameters with which nothing could ever be delivered."""
    bad = c.pick([(0, 50, 100, None), (-5, 50, 100, None), (100, 0, 100, None), ("x", 1, 1, None), (1, 1)])
    c.sig(str(bad))
    try:
        rc.EnableLogging(*bad)
    except (ValueError, TypeError, OverflowError):
        c.seen("refused")
        return
    rc.DisableLogging(100)
    c.fail("parameters", f"EnableLogging{bad} was accepted")


def post(run, j):
    if j.flavour != "tsan":
        return
    for rep in j.san_text().split("==================")[1:]:
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+?) \(pid", rep)
        if not m:
            continue
        fs = []
        for part in re.split(r"\n\s*\n", rep)[:2]:
            fr = re.findall(r"#\d+ (.+?) (/\S+?):\d+", part)
            mine = [x for x, w in fr if "/src/" in w and "/include/" not in w]
            fs.append(re.sub(r"\(.*", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", mine[0]))).split("::")[-1] if mine else "?")
        if all(f == "?" for f in fs):
            run.notes.append("report outside the module: " + rep[:600])
            continue
        run.viols.append(dict(idx=j.start, key="tsan:" + m.group(1).replace(" ", "-") + "@" + "|".join(sorted(fs)), msg=rep[:3000], flavour="tsan", pinned=None))


FAMILIES = [("plain", 3, plain), ("cycles", 4, cycles), ("timed", 1.5, timed), ("full", 1, full), ("levels", 2, levels), ("registry", 1, registry),
            ("python", 4, python), ("refuse", 0.3, refuse)]
