"""The same request over and over: memory, descriptors and threads in use must not keep growing."""
import ctypes, gc, importlib, os, random, sys, time
from vlib.worker import rng_for

# workload of another property -> what its cases get as spec["extra"]
MIX = [("search", {"focus": "contract", "pid": "C03"}), ("search", {"focus": "constraints", "pid": "C02"}), ("search", {"focus": "mixed", "pid": "C01"}), ("miners", {}), ("hostile", {}), ("badargs", {}),
       ("cliques", {"big": .4}), ("bicliques", {"big": .4}), ("cacheedit", {}), ("packing", {}), ("layouts", {}), ("diagnose", {}), ("feasible", {}), ("poly", {}), ("wrappers", {}), ("parallel", {})]
WEIGHT = [3, 2, 1, 3, 3, 4, 2, 2, 2, 2, 2, 1, 1, 1, 1, 2]


def setup(spec):
    global libc
    libc = ctypes.CDLL(None)
    libc.vp_live_blocks.restype = ctypes.c_long
    for name, extra in MIX:
        m = importlib.import_module("vlib.props." + name)
        if hasattr(m, "setup"):
            m.setup(dict(spec, module=name, extra=extra))


def used():
    gc.collect()
    sys._clear_type_cache()  # it keeps the last names looked up
    return libc.vp_live_blocks()


def handles():
    return len(os.listdir("/proc/self/fd")), len(os.listdir("/proc/self/task"))


def measure(f, n):
    """blocks in use gained in each of four rounds of n calls"""
    out = []
    a = used()
    for _ in range(4):
        for _ in range(n):
            f()
        b = used()
        out.append(b - a)
        a = b
    return out


def steady(d, n):
    return min(d) >= n


def run(i, rng, spec):
    k = rng.choices(range(len(MIX)), WEIGHT)[0]
    name, extra = MIX[k]
    mod = importlib.import_module("vlib.props." + name)
    sub = dict(spec, module=name, extra=extra)
    seed = rng.getrandbits(40)
    kinds = set()

    def f():
        random.seed(1)
        r = rng_for(seed, name, i)
        try:
            mod.run(i, r, sub)
        except Exception as e:
            kinds.add(type(e).__name__)

    t = time.perf_counter()
    f()
    t = time.perf_counter() - t
    st = {"workloads": [name], "skipped_slow": 0, "rounds_grew": 0}
    if t > .5:
        st["skipped_slow"] = 1
        return {"stats": st, "evals": 1}
    for _ in range(3):
        f()
    n = 5 if t > .1 else 10 if t > .02 else 25
    h0 = handles()
    d = measure(f, n)
    h1 = handles()
    calls, V = 4 * n, []
    if steady(d, n):
        # growing in every round: again, with longer rounds
        st["rounds_grew"] = 1
        e = measure(f, 3 * n)
        calls += 12 * n
        if steady(e, 3 * n):
            V.append({"key": "memory-" + name, "msg": "%s case %d (seed %d): blocks gained in rounds of %d equal requests %r, of %d requests %r" % (name, i, seed, n, d, 3 * n, e)})
    if h1[0] >= h0[0] + n:
        V.append({"key": "descriptors", "msg": "%s case %d: %d descriptors open before %d equal requests and %d after" % (name, i, h0[0], 4 * n, h1[0])})
    if h1[1] > h0[1]:
        time.sleep(1)
        if handles()[1] > h0[1]:
            V.append({"key": "threads", "msg": "%s case %d: %d threads before %d equal requests and %d after" % (name, i, h0[1], 4 * n, h1[1])})
    st["calls"] = calls
    return {"violations": V, "stats": st, "evals": calls, "sig": "%s-%d" % (name, seed), "case": {"workload": name, "seed": seed, "gained": d}}
