import threading
from vlib import build


def body(ctx):
    ctx.rules.append("Hostile calls (degenerate graphs, inconsistent hints, extreme parameters, sequences of miner calls) and "
                     "ordinary ones on a build with AddressSanitizer and UndefinedBehaviorSanitizer, and single calls on a "
                     "second such build that also has the library's own CPPDEBUG self-checks; then searches, chain "
                     "histories and building blocks in C++ under valgrind, for reads of uninitialised memory; non-trivial when a call "
                     "returned, distinct by graphs, hints and parameters.")
    ts = [threading.Thread(target=lambda v=v: quiet(v)) for v in ("asan", "asandbg")]
    [t.start() for t in ts]
    [t.join() for t in ts]
    kw = dict(sanitizer="asan", timeout=40, hang_is_violation=True)
    ctx.run_cases("hostile", ctx.n(1800, 100000), variant="asan", **kw)
    ctx.run_cases("hostile", ctx.n(900, 40000), variant="asandbg", extra={"dbg": True}, start=200000, **kw)
    ctx.run_cases("search", ctx.n(600, 40000), variant="asandbg", extra={"focus": "constraints", "pid": "C05"}, start=500000, **kw)
    ctx.run_cases("search", ctx.n(500, 40000), variant="asandbg", extra={"focus": "mixed", "pid": "C05"}, start=600000, **kw)
    ctx.run_cases("search", ctx.n(16, 2000), variant="asandbg", extra={"focus": "constraints", "pid": "C05", "vast": 1}, start=800000, **dict(kw, timeout=200))
    # uninitialised reads, which the sanitizers do not see
    plain = ["-O1", "-g", "-DNDEBUG", "-DVP_PLAIN", "-w"]
    for name, n, deep in (("race", 800, 60000), ("chains", 400, 30000), ("blocks", 600, 50000)):
        ctx.run_harness(name, plain, ctx.n(n, deep), compiler="g++", timeout=120, memcheck=True, start=900000)
    ctx.floor = 500


def quiet(v):
    try:
        build.package(("mm",), v)
    except build.BuildError:
        pass  # reported when it is used
