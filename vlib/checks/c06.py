from vlib import build


def body(ctx):
    ctx.rules.append("Seeded problems solved by the C++ core under ThreadSanitizer: either one search with 2-9 worker threads, run "
                     "twice under different injected delays (yields and sleeps in the allocator), or 2-5 searches at once in their own "
                     "threads, compared with the same searches alone. Evaluations are searches; non-trivial when an embedding "
                     "was found, distinct by chains and thread count.")
    exe = build.harness("race", ["race.cpp"], ["-O1", "-g1", "-fsanitize=thread", "-w", "-DNDEBUG"])
    env = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:external_symbolizer_path=/usr/lib/llvm-18/bin/llvm-symbolizer"}
    ctx.run_exe("race", exe, ctx.n(1000, 80000), nproc=6, env=env, timeout=120)
    ctx.floor = 100
