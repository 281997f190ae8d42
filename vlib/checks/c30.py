def body(ctx):
    ctx.rules.append("Each random problem is solved with one seed, then with other names for its nodes (permuted, of other types, without order, with equal hashes), then with edges turned around "
                     "and repeated, other containers and other orders of the hints, then with both; answers must agree name by name, chain by chain, in order. Evaluations are calls, "
                     "non-trivial when the answer has chains, distinct by the answer.")
    ctx.run_cases("names", ctx.n(6000, 300000), variant="o1", timeout=120)
    ctx.floor = 1000
