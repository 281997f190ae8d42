from vlib import build

SAN = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w", "-DNDEBUG"]
ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77", "UBSAN_OPTIONS": "print_stacktrace=1"}


def body(ctx):
    ctx.rules.append("Random histories of 5-60 operations (build, tear out, freeze, thaw, steal, flip back, copy) on the library's embedding class over "
                     "random problems with and without fixed chains, domains and initial chains; after every operation the usage counts, parent "
                     "trees, reference counts, links and statistics are recomputed from scratch. Evaluations are operations; "
                     "distinct by the sequence of chain sizes.")
    try:
        exe = build.harness("chains", ["chains.cpp"], SAN)
    except build.BuildError as e:
        # the classes look different now: searches with the library's own self-checks instead
        print("NOTE: the C++ workload does not compile against this tree: %s" % str(e)[-600:])
        ctx.stat("cpp_workload_left_out_chains", 1)
        kw = dict(variant="asandbg", sanitizer="asan", timeout=40, hang_is_violation=True)
        ctx.run_cases("search", ctx.n(1500, 60000), extra={"focus": "constraints", "pid": "C10"}, **kw)
        ctx.run_cases("search", ctx.n(1500, 60000), extra={"focus": "mixed", "pid": "C10"}, start=100000, **kw)
        return
    ctx.run_exe("chains", exe, ctx.n(16000, 1500000), env=ENV, timeout=60)
    ctx.floor = 1000
