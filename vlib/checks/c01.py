def body(ctx):
    ctx.rules.append("Random source/target pairs (17 source families, 15 target families, 9 label schemes, 5 ways of "
                     "handing a graph over) with random parameters and hints; non-trivial when an embedding or an "
                     "overlapped embedding came back, distinct by the graphs and the chains.")
    ctx.run_cases("search", ctx.n(12000, 400000), extra={"focus": "mixed", "pid": "C01"}, timeout=60)
    ctx.run_cases("search", ctx.n(60, 1500), extra={"focus": "plain", "pid": "C01", "big": 2.5}, timeout=120, start=1000000)
    ctx.run_cases("search", ctx.n(160, 6000), extra={"focus": "mixed", "pid": "C01", "vast": 1}, timeout=120, start=2000000)
    ctx.floor = 500
