def body(ctx):
    ctx.rules.append("As C01; half of the cases ask for return_overlap.")
    ctx.run_cases("search", ctx.n(12000, 400000), extra={"focus": "contract", "pid": "C03"}, timeout=60, start=500000)
    ctx.run_cases("search", ctx.n(120, 6000), extra={"focus": "contract", "pid": "C03", "vast": 1}, timeout=120, start=2000000)
    ctx.floor = 500
