def body(ctx):
    ctx.rules.append("Minors of random graphs and lattices by contraction, subgraphs, sources grown into trees that waste no degree, and minors taken one step at a time: the filter must say "
                     "True. Minors and subgraphs of a lattice of size m, and any graph of n nodes where a clique of n nodes is known to fit: the bound must not exceed m. "
                     "Inconsistent arguments must be refused. Distinct by degree sequences or source.")
    ctx.run_cases("feasible", ctx.n(12000, 400000), mods=("mm0", "rp", "bq"), variant="o0", timeout=30, hang_is_violation=True)
    ctx.floor = 3000
