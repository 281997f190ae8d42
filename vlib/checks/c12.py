def body(ctx):
    ctx.rules.append("Valid embeddings built by contracting connected parts of a random target are handed to the search as initial chains (with and without "
                     "skip_initialization), through set_initial_chains and improve_embeddings, repeatedly, with and without fixed chains; or one seed is run "
                     "with growing chainlength_patience. Each answer must be valid with a chain-length profile no worse than before. "
                     "Evaluations are compared pairs; distinct by mode, starting profile and problem size.")
    ctx.run_cases("improve", ctx.n(25000, 700000), timeout=60)
    ctx.run_cases("improve", ctx.n(120, 5000), extra={"vast": True}, timeout=120, start=2000000)
    ctx.floor = 500
