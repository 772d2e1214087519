"""onecase.py CHECKMODULE SEED FLAVOUR IDX: run one case in this process and print every call into riptide_cpp (for debugging)."""
import collections, importlib, os, sys
sys.path[:0] = [os.path.join(os.path.dirname(__file__), "..", d) for d in ("lib", "checks")]
import numpy as np, riptide_cpp as rc
import vp
mod = importlib.import_module(sys.argv[1])
out = collections.defaultdict(int, newsigs=[], samples=[], events=collections.Counter(), seen=collections.Counter(), sigs=set(), cases=0, scratch="/tmp")
ctx = vp.Ctx(int(sys.argv[2]), mod.PROPERTY, sys.argv[3], int(sys.argv[4]), "quick", out)
def d(x):
    return f"{x.dtype}{x.shape}s{x.strides}" if isinstance(x, np.ndarray) else ("[" + ",".join(map(d, x)) + "]") if isinstance(x, (list, tuple)) else repr(x)[:60]
calls = []
class RC:
    def __getattr__(self, name):
        f = getattr(rc, name)
        if not callable(f): return f
        def g(*a, **k):
            print(name, d(a), k, flush=True); calls.append((name, a, k))
            if os.environ.get("STOP") == name: np.savez("/tmp/onecase.npz", *[x for x in a if isinstance(x, np.ndarray)]); sys.exit()
            r = f(*a, **k); print("   ->", d(r), flush=True); return r
        return g
mod.rc = RC()
try:
    vp.run_case(mod, ctx)
except vp.Violation as e:
    print("VIOLATION", e)
