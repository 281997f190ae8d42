from vlib import busq

SAN = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-w", "-DCPPDEBUG", "-UNDEBUG", "-fsanitize=address,undefined",
       "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"]


def body(ctx):
    ctx.rules.append("The clique and biclique workloads of C13/C14 and the cache-editing histories of C18 run in an AddressSanitizer + UBSan build with the library's own assertions on; "
                     "the C++ core alone runs under the same sanitizers and, for reads of uninitialised memory, under valgrind; any report, failed assertion or crash is a violation. Evaluations are requests; distinct by graph and answers.")
    kw = dict(mods=("mm0", "bq"), sanitizer="asan", variant="asandbg", timeout=120, hang_is_violation=True)
    ctx.run_cases("cliques", ctx.n(160, 40000), extra={"big": .6}, **kw)
    ctx.run_cases("bicliques", ctx.n(120, 40000), extra={"big": .6}, start=100000, **kw)
    ctx.run_cases("cacheedit", ctx.n(28, 4000), start=200000, **kw)
    args = (busq.bases(ctx), "both")
    env = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77", "UBSAN_OPTIONS": "print_stacktrace=1"}
    ctx.run_harness("busq", SAN, ctx.n(200, 40000), env=env, args=args, timeout=180)
    ctx.run_harness("busq", ["-O1", "-g", "-w", "-DNDEBUG"], ctx.n(140, 20000), compiler="g++", label="busqmem", args=args + ("150",), timeout=180, memcheck=True)
    ctx.floor = 150
