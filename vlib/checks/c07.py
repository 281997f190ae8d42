def body(ctx):
    ctx.rules.append("Histories of malformed calls (graphs, parameters, hints and method arguments of the wrong type, range or content, "
                     "objects whose protocol methods raise, no room to start threads) in one process per lane, followed by one of five "
                     "reference problems whose answer must not change; miner histories with and without failing calls are compared. "
                     "Evaluations are calls; non-trivial when a call raised, distinct by history.")
    ctx.run_cases("badargs", ctx.n(20000, 600000), timeout=40, hang_is_violation=True)
    ctx.floor = 500
