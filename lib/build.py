#!/usr/bin/env python3
"""Builds the riptide_cpp extension module from /repo's current working tree, one flavour per sanitizer.

Content-addressed: every translation unit is keyed by the hash of its preprocessed text (comments and line
markers removed) plus the flags, so a build only recompiles what really changed, whatever the mtimes say.
Output: /verif/.cache/mod/<key>/riptide_cpp.cpython-312-x86_64-linux-gnu.so, whose directory build() returns.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
VENV = "/opt/vp/venv"
SITE = VENV + "/lib/python3.12/site-packages"
GUARD = "RIPTIDE_VERIFY_HOOKS"

COMMON = [
    "-std=c++20", "-fPIC", "-x", "c++", "-DBUILDING_RIPTIDE_CPP", "-Driptide_cpp_EXPORTS", "-DNDEBUG", "-D" + GUARD,
    "-mavx2", "-mbmi2", "-fpermissive", "-pthread", "-falign-functions=32", "-fno-strict-aliasing", "-w",
    "-isystem", "/opt/vp/compat", "-I" + SITE + "/numpy/core/include", "-isystem", "/usr/include/python3.12",
    "-isystem", VENV + "/include",
]
FLAVOURS = {
    # as the product is built (CMake Release: -O3 ... -O2)
    "rel": (["-O2", "-g0"], []),
    "asan": (["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"],
             ["-fsanitize=address,bounds"]),
    "tsan": (["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1"],
             ["-fsanitize=thread"]),
}
EXT = "riptide_cpp.cpython-312-x86_64-linux-gnu.so"
ENV = {**os.environ, "LANG": "C.UTF-8", "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}
ENV.pop("PYTHONPATH", None)


class BuildError(Exception):
    pass


def sources(flavour=None):
    own = [os.path.join(HERE, "tsan_volatile.cpp")] if flavour == "tsan" else []
    return sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/logging/*.cpp")) + own


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def tree_hash(dirs=("src",)):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith((".cpp", ".h", ".hpp", ".inl", ".c", ".cc", ".def", ".inc")):
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    return h.hexdigest()[:32]


def _compile(src, flags, extra_inc=()):
    """Returns the object file of one translation unit."""
    base = ["g++"] + flags + list(extra_inc)
    r = subprocess.run(base + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd="/")
    if r.returncode:
        raise BuildError(f"preprocessing {src}: {r.stderr.decode(errors='replace')[-2000:]}")
    text = b"\n".join(ln.rstrip() for ln in r.stdout.splitlines() if ln.strip())
    key = _sha(text, *[f for f in base if not f.startswith("-I")], "v1")
    obj = os.path.join(CACHE, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.tmp"
        r = subprocess.run(base + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd="/")
        if r.returncode:
            raise BuildError(f"compiling {src}: {r.stderr.decode(errors='replace')[-2000:]}")
        os.replace(tmp, obj)
    return obj


_WEIGHT = {"HashLinear.cpp": 9, "GroupBy.cpp": 8, "Ema.cpp": 7, "Bins.cpp": 5, "SDSFile.cpp": 5, "Sort.cpp": 4}


def build_many(flavours, jobs=None):
    """Builds several flavours, the longest compilations first; returns {flavour: module directory}."""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "mod"), exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        todo, out = [], {}
        for fl in flavours:
            cflags, lflags = FLAVOURS[fl]
            d = os.path.join(CACHE, "mod", _sha(fl, th, *COMMON, *cflags, "v1"))
            out[fl] = d
            if not os.path.exists(os.path.join(d, EXT)):
                todo.append((fl, d, cflags, lflags))
        if todo:
            work = [(s, fl, COMMON + cflags) for fl, d, cflags, lflags in todo for s in sources(fl)]
            work.sort(key=lambda w: -_WEIGHT.get(os.path.basename(w[0]), 0))
            objs = {fl: [] for fl, *_ in todo}
            with cf.ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
                futs = {ex.submit(_compile, s, f): fl for s, fl, f in work}
                for fu in cf.as_completed(futs):
                    objs[futs[fu]].append(fu.result())
            for fl, d, cflags, lflags in todo:
                os.makedirs(d, exist_ok=True)
                tmp = os.path.join(d, EXT + ".tmp")
                r = subprocess.run(
                    ["g++", "-shared", "-pthread"] + lflags + sorted(objs[fl]) +
                    ["-o", tmp, VENV + "/lib/libtbb.so.12", VENV + "/lib/libtbbmalloc.so.2", "-lzstd", "-lrt",
                     "-Wl,-rpath," + VENV + "/lib"],
                    stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd="/")
                if r.returncode:
                    raise BuildError(f"linking {fl}: {r.stderr.decode(errors='replace')[-2000:]}")
                os.replace(tmp, os.path.join(d, EXT))
        _prune()
    return out


def build(flavour):
    return build_many([flavour])[flavour]


def build_driver(flavour, name):
    """A C++ driver of /verif/drivers, compiled with the module's flags against the working tree's headers; its symbols resolve
    against the module when a worker loads it."""
    cflags, lflags = FLAVOURS[flavour]
    src = os.path.join(VERIF, "drivers", name)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        plain = name.endswith(".c")
        obj = _compile(src, (["-O2", "-fPIC", "-w"] if plain else COMMON + cflags), ["-I" + REPO + "/src"])
        so = obj[:-2] + ".so"
        if not os.path.exists(so):
            tmp = f"{so}.{os.getpid()}.tmp"
            r = subprocess.run(["g++", "-shared", "-pthread"] + ([] if plain else lflags) + [obj, "-o", tmp, "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd="/")
            if r.returncode:
                raise BuildError(f"linking {name}: {r.stderr.decode(errors='replace')[-2000:]}")
            os.replace(tmp, so)
        return so


def _prune():
    """Keeps the cache bounded (old objects and modules of earlier trees)."""
    for sub, keep in (("obj", 600), ("mod", 24)):
        xs = sorted(glob.glob(os.path.join(CACHE, sub, "*")), key=os.path.getmtime)
        for x in xs[:-keep] if len(xs) > keep else []:
            if os.path.isdir(x):
                shutil.rmtree(x, ignore_errors=True)
            else:
                try:
                    os.unlink(x)
                except OSError:
                    pass


def sanitizer_lib(flavour):
    name = {"asan": "libasan.so", "tsan": "libtsan.so"}.get(flavour)
    if not name:
        return None
    return os.path.realpath(subprocess.check_output(["gcc", "-print-file-name=" + name], text=True).strip())


if __name__ == "__main__":
    t = time.time()
    fl = sys.argv[1:] or list(FLAVOURS)
    try:
        for k, v in build_many(fl).items():
            print(k, v)
    except BuildError as e:
        print("BUILD FAILED", e)
        sys.exit(2)
    print(f"built in {time.time() - t:.1f} s")
