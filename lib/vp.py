"""Runs one property's check: workers drive the real riptide_cpp module, oracles watch every call.

A check module (checks/<name>.py) defines
  PROPERTY   the id
  FLAVOURS   {"quick": {flavour: cases}, "thorough": {...}}   bounded by case count
  FAMILIES   [(name, weight, function(ctx))]                  one case of a family; draws everything from ctx.rng
  PINNED     [(name, flavour, function(ctx))]                 optional: fixed reproducers (known findings, regressions)
  RULE       text for the evidence
The parent (run_check) starts worker processes, restarts them past crashes and hangs, confirms crashes alone,
matches every violation key against known_findings.json, writes the evidence and prints the verdict.
"""
import collections
import faulthandler
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "checks")]
import build  # noqa: E402

PY = "/opt/vp/venv/bin/python3"
CASE_S = 60  # watchdog of one case; firing is inconclusive until it fires again on the case alone
MAX_RESTARTS = 40


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class Ctx:
    """What one case sees: its own random generator, and where it reports."""

    def __init__(self, seed, prop, flavour, idx, tier, out):
        import numpy as np

        self.np = np
        self.flavour, self.idx, self.tier, self.out = flavour, idx, tier, out
        self.seed, self.prop = seed, prop
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), max(idx, 0)])
        self.family = None
        self.scratch = out["scratch"]

    # coverage -------------------------------------------------------------------------------------------------
    def sig(self, *parts):
        """The case's signature: what distinguishes it. Counted as distinct and non-trivial."""
        s = self.family + ":" + ",".join(str(p) for p in parts)
        if s not in self.out["sigs"]:
            self.out["sigs"].add(s)
            self.out["newsigs"].append(s)

    def seen(self, name, n=1):
        """Counts an observed event."""
        self.out["events"][name] += n

    def sample(self, text):
        if len(self.out["samples"]) < 4 and self.family not in self.out["sampled"]:
            self.out["sampled"].add(self.family)
            self.out["samples"].append(f"{self.family}#{self.idx}: {text}"[:400])

    # verdicts -------------------------------------------------------------------------------------------------
    def fail(self, key, msg, **info):
        raise Violation(f"{self.family}:{key}" if self.family else key, str(msg)[:1500])

    def check(self, cond, key, msg=""):
        self.out["checks"] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    # draws ----------------------------------------------------------------------------------------------------
    def pick(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)


def load(prop):
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module(f[:-3])
    raise SystemExit(f"no check module for {prop}")


# ---- worker ---------------------------------------------------------------------------------------------------
def choose(mod, ctx):
    fams = mod.FAMILIES
    tot = sum(w for _, w, _ in fams)
    # low-discrepancy choice: every family gets its share whatever the seed
    x = (ctx.idx * 0.6180339887498949) % 1.0 * tot
    for name, w, fn in fams:
        if x < w:
            return name, fn
        x -= w
    return fams[-1][0], fams[-1][2]


def run_case(mod, ctx, pinned=None):
    if pinned is not None:
        name, _, fn = next(p for p in mod.PINNED if p[0] == pinned)
        ctx.family = None
    else:
        name, fn = choose(mod, ctx)
        ctx.family = name
    ctx.out["cases"] += 1
    ctx.out["events"]["case:" + name] += 1
    fn(ctx)


def worker(argv):
    spec = json.loads(argv)
    if os.environ.get("VP_DRIVER"):  # the driver resolves its symbols against the module
        sys.setdlopenflags(os.RTLD_NOW | os.RTLD_GLOBAL)
    mod = load(spec["prop"])
    log = open(spec["log"], "a", buffering=1)
    cur = os.open(spec["cur"], os.O_RDWR | os.O_CREAT)
    fresh = lambda: dict(cases=0, checks=0, newsigs=[], events=collections.Counter(), samples=[])  # noqa: E731
    out = dict(sigs=set(), sampled=set(), scratch=spec["scratch"], **fresh())
    faulthandler.enable(open(spec["log"] + ".fault", "a"))
    if hasattr(mod, "worker_init"):
        mod.worker_init(spec)

    def flush():
        log.write(json.dumps({"cov": {k: out[k] for k in ("cases", "checks", "newsigs", "events", "samples")}}) + "\n")
        out.update(fresh())

    n = 0
    last = time.time()
    for idx in spec["idxs"] if "idxs" in spec else range(spec["start"], spec["stop"], spec["step"]):
        os.pwrite(cur, f"{idx:>12d}".encode(), 0)
        os.utime(spec["cur"])
        ctx = Ctx(spec["seed"], spec["prop"], spec["flavour"], idx, spec["tier"], out)
        try:
            run_case(mod, ctx, spec.get("pinned"))
        except Violation as v:
            log.write(json.dumps({"viol": {"idx": idx, "key": v.key, "msg": v.msg}}) + "\n")
        except MemoryError:
            out["events"]["memoryerror"] += 1
        except Exception:
            tb = traceback.format_exc()
            log.write(json.dumps({"exc": {"idx": idx, "family": ctx.family, "tb": tb[-3000:]}}) + "\n")
        n += 1
        if n % 20 == 0 or time.time() - last > 5:
            flush()
            last = time.time()
    flush()
    if hasattr(mod, "worker_done"):
        try:
            ctx = Ctx(spec["seed"], spec["prop"], spec["flavour"], -1, spec["tier"], out)
            ctx.family = "end"
            mod.worker_done(ctx)
        except Violation as v:
            log.write(json.dumps({"viol": {"idx": -1, "key": v.key, "msg": v.msg}}) + "\n")
        flush()
    log.write(json.dumps({"done": 1}) + "\n")
    log.close()
    sys.stdout.flush()
    os._exit(0)  # the module's worker threads never stop; skip interpreter teardown


# ---- parent ---------------------------------------------------------------------------------------------------
def worker_env(flavour, moddir, tmp, tag, mod):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME", "LD_PRELOAD")}
    env.update(PYTHONPATH=moddir, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", HOME=tmp, PYTHONHASHSEED="0")
    lib = build.sanitizer_lib(flavour)
    if lib:
        env["LD_PRELOAD"] = lib + " " + os.path.realpath("/usr/lib/x86_64-linux-gnu/libstdc++.so.6")
    if flavour == "asan":
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = (
            "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:detect_odr_violation=0:"
            f"handle_abort=1:handle_segv=1:quarantine_size_mb=64:malloc_context_size=12:log_path={tmp}/{tag}.san")
        env["UBSAN_OPTIONS"] = f"print_stacktrace=1:halt_on_error=1:log_path={tmp}/{tag}.san"
    elif flavour == "tsan":
        supp = os.path.join(VERIF, "lib", "tsan.supp")
        env["TSAN_OPTIONS"] = (
            f"halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:log_path={tmp}/{tag}.san"
            + (f":suppressions={supp}" if os.path.exists(supp) else ""))
    if getattr(mod, "DRIVER", None):
        env["VP_DRIVER"] = build.build_driver(flavour, mod.DRIVER)
    if getattr(mod, "PRELOAD", None):
        env["VP_PRELOAD"] = build.build_driver("rel", mod.PRELOAD)
        env["LD_PRELOAD"] = (env.get("LD_PRELOAD", "") + " " + env["VP_PRELOAD"]).strip()
    env.update(getattr(mod, "ENV", {}))
    return env


def asan_summary(text):
    """A short, line-number-free identity of a sanitizer report: kind and the innermost riptide frames."""
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|runtime error|UndefinedBehaviorSanitizer): ?([a-zA-Z-]+(?: [a-z]+)?)", text)
    kind = m.group(2).strip().replace(" ", "-") if m else "report"
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/repo/\S+|\.\./\S+|\(|/)", text)
    mine = [re.sub(r"[<(].*", "", f) for f, where in frames if where.startswith("/repo")]
    out = []
    for f in mine:
        f = f.split()[-1] if f.split() else f
        if f not in out:
            out.append(f)
        if len(out) == 2:
            break
    return kind + "@" + "/".join(out or ["?"])


class Job:
    def __init__(self, run, flavour, start, stop, step, tag, pinned=None, idxs=None):
        self.run, self.flavour, self.start, self.stop, self.step, self.tag = run, flavour, start, stop, step, tag
        self.pinned, self.idxs = pinned, idxs
        self.log = os.path.join(run.tmp, tag + ".log")
        self.cur = os.path.join(run.tmp, tag + ".cur")
        self.scratch = os.path.join(run.tmp, tag + ".scratch")
        self.pos = 0
        self.proc = None
        self.done = False
        self.restarts = 0

    def spawn(self):
        os.makedirs(self.scratch, exist_ok=True)
        spec = dict(prop=self.run.prop, flavour=self.flavour, start=self.start, stop=self.stop, step=self.step,
                    seed=self.run.seed, tier=self.run.tier, log=self.log, cur=self.cur, scratch=self.scratch)
        if self.pinned:
            spec["pinned"] = self.pinned
        if self.idxs is not None:
            spec["idxs"] = self.idxs
        with open(self.cur, "w") as f:
            f.write(f"{-1:>12d}")
        self.stdout = open(os.path.join(self.run.tmp, self.tag + ".out"), "ab")
        cmd = [PY, os.path.join(HERE, "vp.py"), "--worker", json.dumps(spec)]
        if self.flavour == "tsan":
            cmd = ["setarch", "-R"] + cmd
        pre = getattr(self.run.mod, "AFFINITY", None)
        if pre:
            cmd = ["taskset", "-c", pre] + cmd
        self.proc = subprocess.Popen(
            cmd, env=worker_env(self.flavour, self.run.mods[self.flavour], self.run.tmp, self.tag, self.run.mod),
            stdout=self.stdout, stderr=self.stdout, stdin=subprocess.DEVNULL, cwd=self.scratch, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def current(self):
        try:
            with open(self.cur) as f:
                return int(f.read().strip() or -1)
        except (OSError, ValueError):
            return -1

    def stalled(self):
        try:
            return time.time() - os.path.getmtime(self.cur) > CASE_S
        except OSError:
            return False

    def san_text(self):
        out = ""
        for f in sorted(os.listdir(self.run.tmp)):
            if f.startswith(self.tag + ".san"):
                with open(os.path.join(self.run.tmp, f), errors="replace") as fh:
                    out += fh.read()
        for suffix in (".out",):
            try:
                with open(os.path.join(self.run.tmp, self.tag + suffix), errors="replace") as fh:
                    t = fh.read()
                i = t.rfind("AddressSanitizer")
                if i >= 0 and not out:
                    out += t[max(0, i - 200):]
            except OSError:
                pass
        return out

    def clear_san(self):
        for f in os.listdir(self.run.tmp):
            if f.startswith(self.tag + ".san"):
                os.unlink(os.path.join(self.run.tmp, f))


class Run:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = load(prop)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vp-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
        self.viols = []  # dicts: key msg idx flavour
        self.excs = []
        self.notes = []
        self.cov = dict(cases=0, checks=0, sigs=set(), events=collections.Counter(), samples=[])
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                      if k["property"] == prop]

    def absorb(self, job):
        try:
            with open(job.log) as f:
                f.seek(job.pos)
                for line in f:
                    if not line.endswith("\n"):
                        break
                    job.pos += len(line.encode())
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "cov" in d:
                        c = d["cov"]
                        self.cov["cases"] += c["cases"]
                        self.cov["checks"] += c["checks"]
                        self.cov["sigs"].update(c["newsigs"])
                        self.cov["events"].update(c["events"])
                        if len(self.cov["samples"]) < 12:
                            self.cov["samples"] += c["samples"]
                    elif "viol" in d:
                        self.viols.append({**d["viol"], "flavour": job.flavour, "pinned": job.pinned})
                    elif "exc" in d:
                        self.excs.append({**d["exc"], "flavour": job.flavour})
                    elif "done" in d:
                        job.done = True
        except OSError:
            pass

    def drive(self, jobs, parallel):
        """Runs the jobs to the end; survives crashes and hangs of the code under test."""
        todo, live = list(jobs), []
        while todo or live:
            while todo and len(live) < parallel:
                j = todo.pop(0)
                j.spawn()
                live.append(j)
            time.sleep(0.05)
            if self.enough():
                for j in live:
                    j.kill()
                    self.absorb(j)
                    j.clear_san()
                return
            for j in list(live):
                rc = j.proc.poll()
                hung = rc is None and j.stalled()
                if rc is None and not hung:
                    continue
                if hung:
                    try:
                        os.killpg(j.proc.pid, signal.SIGABRT)
                        time.sleep(1)
                    except OSError:
                        pass
                    j.kill()
                live.remove(j)
                self.absorb(j)
                if j.done:
                    continue
                nxt = self.crashed(j, rc, hung)
                if nxt is not None:
                    todo.insert(0, nxt)

    def enough(self):
        """A hang or a long run with violations ends the run: each further hang would cost minutes."""
        bad = [v for v in self.viols if self.known_for(v["key"]) is None]
        spent = time.time() - self.t0
        late = self.tier == "quick" and spent > 650
        if any(v["key"].endswith("hang") for v in bad) or (bad and self.tier == "quick" and spent > 150) or late:
            self.notes.append(f"stopped after {spent:.0f} s with {len(bad)} violations")
            return True
        return False

    def crashed(self, j, rc, hung):
        """The process of job j ended before its cases did."""
        idx = j.current()
        text = j.san_text()
        if idx < 0 and j.pinned is None:
            with open(os.path.join(self.tmp, j.tag + ".out"), errors="replace") as f:
                tail = f.read()[-1500:]
            self.notes.append(f"worker {j.tag} did not start (rc {rc}): {tail} {text[:1500]}")
            j.restarts += 1
            if j.restarts > 2:
                self.viols_start_failure = True
                return None
            return j
        fam = j.pinned or self.family_of(idx, j.flavour)
        if rc == -signal.SIGKILL and not hung:
            self.notes.append(f"worker {j.tag} was killed at case {idx} (memory?): inconclusive")
            self.cov["events"]["killed"] += 1
        else:
            confirmed = True
            if hung:
                confirmed = self.confirm_hang(j, idx)
            if confirmed:
                if hung:
                    key = f"{fam}:hang"
                elif text:
                    key = f"{fam}:{asan_summary(text)}"
                else:
                    key = f"{fam}:died-{signal.Signals(-rc).name if rc and rc < 0 else rc}"
                msg = "hang" if hung else (text[:3000] or self.fault_text(j) or f"exit status {rc}")
                self.viols.append(dict(idx=idx, key=key if not j.pinned else key.split(":", 1)[1], msg=msg,
                                       flavour=j.flavour, pinned=j.pinned, crash=True))
            else:
                self.notes.append(f"case {idx} on {j.flavour} stalled once, not when run alone: inconclusive")
        j.clear_san()
        if j.pinned:
            return None
        j.restarts += 1
        if j.restarts > MAX_RESTARTS:
            self.notes.append(f"worker {j.tag}: too many crashes, stopped at {idx}")
            return None
        if j.idxs is not None:
            rest = j.idxs[j.idxs.index(idx) + 1:] if idx in j.idxs else []
            if not rest:
                return None
            j.idxs = rest
        else:
            j.start = idx + j.step
            if j.start >= j.stop:
                return None
        return j

    def fault_text(self, j):
        try:
            with open(j.log + ".fault", errors="replace") as f:
                return f.read()[-2500:]
        except OSError:
            return ""

    def confirm_hang(self, j, idx):
        k = Job(self, j.flavour, 0, 0, 1, f"hang{len(self.viols)}-{j.tag}", pinned=j.pinned, idxs=[idx])
        k.spawn()
        t = time.time()
        while time.time() - t < 2 * CASE_S:
            if k.proc.poll() is not None:
                return False
            time.sleep(0.2)
        k.kill()
        return True

    def family_of(self, idx, flavour):
        class _C:
            pass
        c = _C()
        c.idx = idx
        return choose(self.mod, c)[0]

    def known_for(self, key):
        for k in self.known:
            if k.get("status") == "fixed":
                continue
            if re.fullmatch(k["key"], key):
                return k
        return None


def run_check(prop, tier, seed, replay=None):
    import types

    sys.modules.setdefault("riptide_cpp", types.ModuleType("riptide_cpp"))  # only the workers load the real one
    run = Run(prop, tier, seed)
    mod = run.mod
    cfg = dict(mod.FLAVOURS[tier])
    if replay:
        rep = json.load(open(replay))
        cfg = {rep["flavour"]: 0}
        run.seed = rep["seed"]
        run.tier = rep.get("tier", tier)
    pinned = list(getattr(mod, "PINNED", []))
    flavours = sorted(set(cfg) | {p[1] for p in pinned}) if not replay else list(cfg)
    try:
        run.mods = build.build_many(flavours)
        for fl in flavours:
            if getattr(mod, "DRIVER", None):
                build.build_driver(fl, mod.DRIVER)
        if getattr(mod, "PRELOAD", None):
            build.build_driver("rel", mod.PRELOAD)
    except build.BuildError as e:
        print("ERROR: the module does not build:", str(e)[-3000:])
        return 2
    tb = time.time()
    try:
        jobs = []
        if replay:
            jobs.append(Job(run, rep["flavour"], 0, 0, 1, "replay", pinned=rep.get("pinned"),
                            idxs=rep.get("idxs") or [rep["idx"]]))
        else:
            shards = getattr(mod, "SHARDS", {})
            for p in pinned:
                jobs.append(Job(run, p[1], 0, 1, 1, "pin-" + re.sub(r"\W", "_", p[0]), pinned=p[0]))
            base = 0
            for fl, n in cfg.items():
                w = shards.get(fl, max(1, min(4, n // 8)))
                for i in range(w):
                    jobs.append(Job(run, fl, base + i, base + n, w, f"{fl}-{i}"))
                base += 10_000_000
        run.drive(jobs, getattr(mod, "PARALLEL", 8))
        for j in jobs:
            if hasattr(mod, "post"):
                mod.post(run, j)
        return verdict(run, tier, seed, replay, tb)
    finally:
        subprocess.run(["rm", "-rf", "--", run.tmp])


def verdict(run, tier, seed, replay, tb):
    prop, mod = run.prop, run.mod
    known, new = {}, {}
    for v in run.viols:
        k = run.known_for(v["key"])
        (known if k else new).setdefault(k["key"] if k else v["key"], []).append(v)
    for key, vs in sorted(known.items()):
        k = next(x for x in run.known if x["key"] == key)
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{key}; seen {len(vs)}x]")
    for n in run.notes[:10]:
        print("note:", n[:2000])
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    shown = 0
    for key, vs in sorted(new.items()):
        v = vs[0]
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}-{v['flavour']}-{v['idx']}-{key}")[:120] + ".json"
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=run.seed, tier=tier, flavour=v["flavour"], idx=v["idx"],
                           pinned=v.get("pinned"), key=key, msg=v["msg"], count=len(vs),
                           how=f"python3 run.py {prop} --replay {os.path.relpath(path, VERIF)}"), f, indent=1)
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        print(f"  {key} ({len(vs)}x, {v['flavour']} case {v['idx']}): {v['msg'][:700]}")
        shown += 1
        if shown >= 25:
            print(f"  ... and {len(new) - shown} more keys")
            break
    if replay:
        print("replayed:", run.cov["cases"], "case(s)")
        return 1 if new else (2 if run.excs else 0)
    want = sum(mod.FLAVOURS[tier].values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=run.cov["cases"], distinct_nontrivial=len(run.cov["sigs"]), rule=mod.RULE,
            samples=run.cov["samples"][:8] or ["(none)"],
            oracle_comparisons=run.cov["checks"],
            observed_events={k: v for k, v in sorted(run.cov["events"].items())[:400]},
            builds={fl: n for fl, n in mod.FLAVOURS[tier].items()},
            known_findings_seen=sorted(known), exhaustive=False),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - run.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {run.cov['cases']} cases, {run.cov['checks']} oracle comparisons, {len(run.cov['sigs'])} distinct "
          f"signatures, {len(new)} new violation keys, {len(known)} known; build {tb - run.t0:.0f} s, "
          f"total {time.time() - run.t0:.0f} s")
    if new:
        return 1
    if run.excs:
        print("ERROR: the harness failed:", len(run.excs), "x", json.dumps(run.excs[0])[:200])
        seen = set()
        for e in run.excs:
            t = e["tb"].strip().splitlines()[-1][:100] + e["tb"].strip().splitlines()[-3][:80]
            if t not in seen and len(seen) < 6:
                seen.add(t)
                print("  case", e["idx"], e["family"], e["flavour"], "\n   ", e["tb"][-1200:].replace("\n", "\n    "))
        return 2
    if run.cov["cases"] < 0.9 * want or not run.cov["sigs"]:
        print(f"ERROR: inconclusive, only {run.cov['cases']} of {want} cases ran")
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        worker(sys.argv[2])
