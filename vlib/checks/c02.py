def body(ctx):
    ctx.rules.append("As C01, every case with fixed_chains, suspend_chains or restrict_chains (consistent ones taken "
                     "from a previous embedding, and arbitrary ones).")
    ctx.run_cases("search", ctx.n(12000, 400000), extra={"focus": "constraints", "pid": "C02"}, timeout=60)
    ctx.run_cases("search", ctx.n(120, 6000), extra={"focus": "constraints", "pid": "C02", "vast": 1}, timeout=120, start=2000000)
    ctx.floor = 500
