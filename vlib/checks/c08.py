def body(ctx):
    ctx.rules.append("Searches with endless patience in one phase (overfill reduction, restarts, short rounds, chain shortening, from a "
                     "given start), serial and parallel, through find_embedding and miner, ended by a timeout (0 to 0.3 s) or by SIGINT at "
                     "a random instant, and searches with little patience and a huge timeout; monitored for the time of return, the exception or "
                     "flag, validity of what came back, the signal handler, and a later call. Non-trivial when the search was ended "
                     "by a timeout or by an interrupt that fell inside the call.")
    ctx.run_cases("stops", ctx.n(3000, 60000), timeout=40, hang_is_violation=True)
    ctx.floor = 300
