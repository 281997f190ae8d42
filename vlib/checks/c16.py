def body(ctx):
    ctx.rules.append("Rounds of 2-5 processes with 1-3 threads each that query the same few graphs through one cache directory. An audit hook on every "
                     "file operation delays participants there, kills them there (or at random times), or their writes fail part-way; every answer, in the round and "
                     "by later users, is compared with that of a private cache. Evaluations are answers; distinct by the "
                     "observed order of file operations over all participants.")
    ctx.run_cases("cacherace", ctx.n(400, 20000), mods=("mm0", "bq"), timeout=120, hang_is_violation=True, nproc=6, rlimit_as=None)
    ctx.floor = 200
